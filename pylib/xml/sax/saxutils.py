# Python 2 text, translated like the analysed code.
def escape(data, entities={}):
    data = data.replace("&", "&amp;")
    data = data.replace(">", "&gt;")
    data = data.replace("<", "&lt;")
    for k, v in entities.items():
        data = data.replace(k, v)
    return data
def unescape(data, entities={}):
    data = data.replace("&lt;", "<")
    data = data.replace("&gt;", ">")
    for k, v in entities.items():
        data = data.replace(k, v)
    return data.replace("&amp;", "&")
def quoteattr(data, entities={}):
    e = dict(entities)
    e.update({'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'})
    data = escape(data, e)
    if '"' in data:
        if "'" in data:
            return '"%s"' % data.replace('"', "&quot;")
        return "'%s'" % data
    return '"%s"' % data
