from . import latkecheck
def main():
    latkecheck.main('C13', ['c13'], level='proof', bounded=None)
