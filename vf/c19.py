from . import latkecheck
def main():
    latkecheck.main('C19', ['c19'], level='other', bounded=[('.', 'password lengths as listed in harness/latke/c19.rs; password contents and everything else arbitrary')])
