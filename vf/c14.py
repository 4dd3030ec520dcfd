from . import latkecheck
def main():
    latkecheck.main('C14', ['c14'], level='proof', bounded=None)
