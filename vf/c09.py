from . import latkecheck
def main():
    latkecheck.main('C09', ['c09'], level='other', bounded=[('.', 'password lengths as listed in harness/latke/c09.rs; password contents and everything else arbitrary')])
