from . import latkecheck
def main():
    latkecheck.main('C12', ['c12'], level='proof', bounded=None)
