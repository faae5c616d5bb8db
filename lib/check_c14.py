"""C14."""
import derive


def check():
    return derive.check("C14")
