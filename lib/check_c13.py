"""C13."""
import derive


def check():
    return derive.check("C13")
