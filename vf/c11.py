from . import latkecheck
def main():
    latkecheck.main('C11', ['c11'], level='other', bounded=[('.', 'password lengths as listed in harness/latke/c11.rs; password contents and everything else arbitrary')])
