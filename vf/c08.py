from . import latkecheck
def main():
    latkecheck.main('C08', ['c08'], level='other', bounded=[('.', 'block and key lengths as listed in harness/latke/c08.rs; contents arbitrary')])
