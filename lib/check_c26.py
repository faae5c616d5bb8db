"""C26."""
import derive


def check():
    return derive.check("C26")
