from . import latkecheck
def main():
    latkecheck.main('C07', ['c07'], level='other', bounded=[('.', 'message lengths as listed in harness/latke/c07.rs; contents, keys and nonces arbitrary')])
