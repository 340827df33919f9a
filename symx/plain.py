"""comparable text of an observation"""


def plain(x):
    """a comparable text of an observation"""
    if isinstance(x, float):
        return f"{x:.9g}"
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, (int, str)):
        return x
    return repr(x)
