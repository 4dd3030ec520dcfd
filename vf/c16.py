from . import latkecheck
def main():
    latkecheck.main('C16', ['c16'], level='proof', bounded=None)
