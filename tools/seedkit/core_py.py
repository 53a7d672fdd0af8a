class CheckError(Exception):
    pass
