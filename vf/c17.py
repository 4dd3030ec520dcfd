from . import latkecheck
def main():
    latkecheck.main('C17', ['c17'], level='proof', bounded=None)
