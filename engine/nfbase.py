class Blowup(Exception):
    """normal form too large"""
