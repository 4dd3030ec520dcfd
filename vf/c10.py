from . import latkecheck
def main():
    latkecheck.main('C10', ['c10'], level='other', bounded=[('.', 'password lengths as listed in harness/latke/c10.rs; password contents and everything else arbitrary')])
