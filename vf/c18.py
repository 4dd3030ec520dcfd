from . import latkecheck
def main():
    latkecheck.main('C18', ['c18'], level='other', bounded=[('.', 'password lengths as listed in harness/latke/c18.rs; password contents and everything else arbitrary')])
