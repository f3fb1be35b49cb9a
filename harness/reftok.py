"""Reference splitter of command lines, from the documented rules."""
ESCAPES = '0nrtbva"\\'
QBAD = "\n\r\t\0"


class Illegal(Exception):
    pass


def split(line):
    """-> [(text, quoted, incomplete)]; Illegal where a character cannot stand.
    Lines with escapes other than the nine inside quotes are outside the rules
    and reported through Illegal too."""
    out = []
    i, n = 0, len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c == '"':
            j = i + 1
            while True:
                if j >= n:
                    out.append((line[i:], True, True))
                    i = n
                    break
                if line[j] == '"':
                    out.append((line[i:j + 1], True, False))
                    i = j + 1
                    break
                if line[j] == "\\":
                    if j + 1 >= n:
                        out.append((line[i:], True, True))
                        i = n
                        break
                    if line[j + 1] not in ESCAPES:
                        raise Illegal(line[j:j + 2])
                    j += 2
                    continue
                if line[j] in QBAD:
                    raise Illegal(line[j])
                j += 1
            continue
        if c in "\n\\":
            raise Illegal(c)
        j = i
        while j < n and line[j] not in '"\n\\ \t':
            j += 1
        out.append((line[i:j], False, False))
        i = j
    return out
