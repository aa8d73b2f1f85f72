"""Calls of native procedures with arguments of all kinds, most of them wrong.

None of them may do more than return or throw. Left out are those that end or
redirect the session, leave files open, or run bytecode, which is trusted."""
import re

FUNCS = [('+', 2), ('-', 2), ('*', 2), ('/', 2), ('rem', 2), ('pow', 2), ('add/int', 2), ('sub/int', 2), ('mul/int', 2), ('div/int', 2), ('mod/int', 2), ('inc/int', 1),
         ('bit-and', 2), ('bit-or', 2), ('bit-xor', 2), ('bit-not', 1), ('bit-shift-left', 2), ('bit-shift-right', 2), ('popcount', 1), ('abs', 1), ('sqrt', 1), ('cbrt', 1),
         ('floor', 1), ('ceil', 1), ('round', 1), ('sin', 1), ('cos', 1), ('tan', 1), ('atan2', 2), ('buffer/allocate', 1), ('buffer/copy', 4), ('buffer->string', 3),
         ('read', 1), ('resolves?', 2), ('val->id', 1), ('nreverse', 1), ('int', 1), ('float', 1), ('array/new', 3), ('tree/new', 3), ('image/serialize', 1), ('file/stat', 1),
         ('rm', 1), ('ls', 2), ('rmdir', 1), ('mkdir', 1), ('file/flush*', 1), ('file/tell*', 1), ('file/seek*', 3), ('file/eof*?', 1), ('file/error*?', 1), ('file/bytes-available*', 1),
         ('apply', 2), ('ref', 2), ('list', 3), ('mutable-eval*', 1), ('cons', 2), ('car', 1), ('cdr', 1), ('throw', 1), ('throw', 2)]

METHODS = [('Array', 'length', 0), ('Array', 'length!', 1), ('Array', 'has?', 1), ('Buffer', 'length', 0), ('Buffer', 'immutable?', 0), ('Buffer', 'length!', 1), ('Buffer', 'clone', 1),
           ('Buffer', 'cut', 2), ('Buffer', 'u8', 1), ('Buffer', 's8', 1), ('Buffer', 'u16', 1), ('Buffer', 's16', 1), ('Buffer', 'u32', 1), ('Buffer', 's32', 1), ('Buffer', 'f32', 1),
           ('Buffer', 's64', 1), ('Buffer', 'f64', 1), ('BufferView', 'length', 0), ('BufferView', 'buffer', 0), ('BufferView', 'immutable?', 0), ('BytecodeArray', 'array', 0),
           ('BytecodeArray', 'literals', 0), ('BytecodeArray', 'length', 0), ('String', 'cut', 2), ('String', 'index-of', 2), ('String', 'last-index-of', 2), ('Tree', 'length', 0),
           ('Tree', 'clone', 0), ('Tree', 'values', 0), ('Tree', 'keys', 0), ('Tree', 'key*', 0), ('Tree', 'value*', 0), ('Tree', 'left*', 0), ('Tree', 'right*', 0),
           ('Tree', 'has?', 1), ('Any', 'type-of', 0), ('Any', 'type-name', 0), ('Any', 'length', 0), ('Any', 'meta', 1), ('Pair', 'length', 0), ('Lambda', 'has?', 1),
           ('Lambda', 'arguments', 0), ('Lambda', 'parent', 0), ('Lambda', 'meta', 1), ('Lambda', 'meta!', 2), ('lClassList[ltNativeFunc]', 'meta', 1), ('NFunc', 'arguments', 0),
           ('Type', 'name', 0), ('Any', 'string', 0), ('Any', 'keyword', 0), ('Any', 'symbol', 0), ('Any', 'int', 0), ('Any', 'float', 0)]

VALUES = ['#nil', '0', '1', '-1', '3', '17', '1000000', '4294967296', '4294967297', '-4294967295', '576460752303423487', '1.5', '-2.5', '123456789012345.5', '"str"', '""', '"12"', '"a,b,,c"', ':kw', "'sym", '(list 1 2)', "'(1 . 2)", '(cons 1 2)',
          '(array/new 1 "a")', '(array/new)', '{:a 1 :b 2}', '{}', '(buffer/allocate 8)', '(buffer/allocate 0)', '(:clone (buffer/allocate 8) #t)', '(:u32 (buffer/allocate 8))', '(:f64 (buffer/allocate 3))',
          '(fn (x) x)', 'car', 'Int', 'String', '#t', '#f', '#\\a', '(pow 10.0 24)', '(pow 10.0 300)', '(* -1.0 (pow 10.0 308))', '(pow 2.0 -1060)', '(/ 1.0 0.0)', '(- (/ 1.0 0.0) (/ 1.0 0.0))',
          '(bit-shift-left 1 62)', '(bit-shift-left 1 63)', '2147483648', '-2147483649', '65536', '256', '(range 300)', '(:array (range 300))', '(:u8 (:clone (buffer/allocate 9) #t))', '(:s16 (buffer/allocate 9))']

SELF = {'Array': ['(array/new 1 "a")', '(array/new)'], 'Buffer': ['(buffer/allocate 8)', '(buffer/allocate 0)', '(:clone (buffer/allocate 8) #t)'], 'BufferView': ['(:u32 (buffer/allocate 8))', '(:f64 (buffer/allocate 3))'],
        'String': ['"str"', '""', '"a,b,,c"'], 'Tree': ['{:a 1 :b 2}', '{}'], 'Lambda': ['(fn (x) x)'], 'Pair': ['(list 1 2)'], 'NFunc': ['car', 'list'], 'Type': ['Int', 'Pair'], 'BytecodeArray': ['(:code (fn (x) (+ x 1)))']}

def call(R):
    n = R.choice([0, 0, 0, -1, 1])
    k = R.random()
    if k < .35:
        c, m, a = R.choice(METHODS)
        return '(:%s %s)' % (m, ' '.join([R.choice(SELF.get(c, VALUES)) if R.random() < .9 else R.choice(VALUES)] + [R.choice(VALUES) for _ in range(max(0, a + n))]))
    if k < .45: return '(let ((c %s)) (set! c %s %s))' % (R.choice(VALUES), R.choice(VALUES), R.choice(VALUES))
    if k < .55: return '(ref %s %s)' % (R.choice(VALUES), R.choice(VALUES))
    f, a = R.choice(FUNCS)
    return '(%s)' % ' '.join([f] + [R.choice(VALUES) for _ in range(max(0, a + n))])

def whole(c):
    """Is this (still) one call?"""
    if not re.match(r"\([-+*/:a-z][^ (){}'\"#]*[ )]", c): return False
    d = 0
    for i, x in enumerate(c):
        d += x == '('
        d -= x == ')'
        if d <= 0 and i < len(c) - 1: return False
    return d == 0 and c.startswith('(') and c.count('"') % 2 == 0 and c.count('{') == c.count('}') and c.count("'") + c.count('#') + c.count(':') < 99
