def export_tle(s):
    return s.lines
