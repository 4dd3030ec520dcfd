from . import latkecheck
def main():
    latkecheck.main('C15', ['c15'], level='proof', bounded=None)
