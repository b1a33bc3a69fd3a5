"""Reading the description of one component back into facts. Numbers appear as tokens ⟦n⟧ standing for the exact value formatted there."""
import re

TOK = r'⟦(\d+)⟧'
UNTIL = re.compile(rf'^until {TOK}(?: \(with change slope {TOK}\))?$')
FROM = re.compile(rf'^from {TOK}(?: \(with change slope {TOK}\))?$')
BETWEEN = re.compile(rf'^between {TOK} and {TOK}(?: \(with same change slopes {TOK}\)| \(with change slopes {TOK} and {TOK}\))?$')
APPLIES = re.compile(r'; this component applies (.*), and it has overall variance ')


def region(ctx, text):
    """None: no region stated; 'bad': unreadable; else list of (lo | None, lo_slope, hi | None, hi_slope)."""
    m = APPLIES.search(text)
    if not m: return None
    val = lambda k: None if k is None else ctx.tokens[int(k)][0]
    body = m.group(1)
    if body == 'nowhere': return []
    out = []
    for piece in body.split(', '):
        if piece.startswith('and '): piece = piece[4:]
        if (q := UNTIL.match(piece)): out.append((None, None, val(q[1]), val(q[2])))
        elif (q := FROM.match(piece)): out.append((val(q[1]), val(q[2]), None, None))
        elif (q := BETWEEN.match(piece)):
            s0, s1 = (q[3], q[3]) if q[3] is not None else (q[4], q[5])
            out.append((val(q[1]), val(s0), val(q[2]), val(s1)))
        else: return 'bad'
    return out
