# Python 2 text, translated like the analysed code.
class Error(ValueError):
    pass
def hexlify(s):
    return ''.join(['0123456789abcdef'[ord(c) >> 4] + '0123456789abcdef'[ord(c) & 15] for c in s])
b2a_hex = hexlify
def unhexlify(s):
    if len(s) % 2:
        raise TypeError('Odd-length string')
    return ''.join([chr(int(s[i:i + 2], 16)) for i in range(0, len(s), 2)])
a2b_hex = unhexlify
