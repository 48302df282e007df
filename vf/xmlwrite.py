"""An independent XML writer for corpus specs that varies everything about
the spelling of the document but not its content. All variation comes from
a list of small integers (all zero or none at all means the plainest form), so
that it shrinks and replays."""
from vf import spec

TAG = {'corpus': 'xigt-corpus', 'igt': 'igt', 'tier': 'tier', 'item': 'item',
       'metadata': 'metadata', 'meta': 'meta'}
XML_NS = 'http://www.w3.org/XML/1998/namespace'
COMMENTS = ['<!--c-->', '<!-- <igt/> -->', '<!---->', '<?pi x?>',
            '<?xigt <item id="q"/>?>', '<!-- ]]> & -->']
SPACE = ['', '\n', ' ', '\n    ', '\t', '\r\n', '\n\n']


class Writer:
    def __init__(self, choices, encodable=None, local_ns=False):
        self.choices = list(choices)
        self.pos = 0
        self.encodable = encodable or (lambda c: True)
        self.local_ns = local_ns
        self.fresh = 0
        self.used = set()

    def pick(self, n):
        if not self.choices:
            return 0
        rnd, k = divmod(self.pos, len(self.choices))
        self.pos += 1
        # the list is used over and over, in another guise each time
        return self.choices[k] * (1 + 7 * rnd) // (1 + rnd) % n

    # characters
    def charref(self, c):
        return ('&#%d;' if self.pick(2) else '&#x%x;') % ord(c)

    def text(self, t):
        """character data for t, spelled in random ways"""
        out = []
        i = 0
        while i < len(t):
            k = self.pick(12)
            if k == 8:
                # a CDATA section of up to 5 characters
                seg = t[i:i + 1 + self.pick(5)]
                if ']]>' not in seg and not seg.endswith(']') and \
                        '\r' not in seg and \
                        all(map(self.encodable, seg)):
                    self.used.add('cdata')
                    out.append('<![CDATA[%s]]>' % seg)
                    i += len(seg)
                    continue
            elif k == 9:
                self.used.add('inner-comment')
                out.append(COMMENTS[self.pick(len(COMMENTS))])
            c = t[i]
            if k in (6, 7) or c == '\r' or not self.encodable(c):
                self.used.add('charref')
                out.append(self.charref(c))
            elif c == '<':
                out.append('&lt;')
            elif c == '&':
                out.append('&amp;')
            elif c == '>':
                out.append('&gt;')
            elif c == '"' and k == 5:
                out.append('&quot;')
            elif c == "'" and k == 5:
                out.append('&apos;')
            elif c == '\n' and k == 4:
                self.used.add('crlf')
                out.append('\r\n')
            else:
                out.append(c)
            i += 1
        return ''.join(out)

    def attval(self, t):
        q = '"\''[self.pick(2)]
        out = []
        for c in t:
            k = self.pick(8)
            if c in '\n\t\r' or not self.encodable(c) or k == 7:
                out.append(self.charref(c))
            elif c == '<':
                out.append('&lt;')
            elif c == '&':
                out.append('&amp;')
            elif c == q:
                out.append('&quot;' if q == '"' else '&apos;')
            elif c == '>' and k == 6:
                out.append('&gt;')
            else:
                out.append(c)
        return q + ''.join(out) + q

    def gap(self):
        """what may stand between elements"""
        out = [SPACE[self.pick(len(SPACE))]]
        if self.pick(6) == 5:
            self.used.add('outer-comment')
            out.append(COMMENTS[self.pick(len(COMMENTS))])
            out.append(SPACE[self.pick(len(SPACE))])
        return ''.join(out)

    # elements
    def element(self, kind, s, ctx):
        """ctx: prefix -> uri in the written document"""
        scope = dict(ctx)
        decls = []
        for pre, uri in (s.get('nsmap') or {}).items():
            # a declaration already in force may be repeated or not
            if scope.get(pre) != uri or self.pick(8) == 7:
                decls.append((pre, uri))
                scope[pre] = uri
        ns = s.get('ns')
        if self.local_ns and kind == 'mc' and self.pick(3) == 2:
            if ns and not any(p == '' for p, _ in decls) and self.pick(2):
                decls.append(('', ns))
                scope[''] = ns
                self.used.add('local-default-ns')
            else:
                self.fresh += 1
                u = ns or 'urn:fresh'
                decls.append(('q%d' % self.fresh, u))
                scope['q%d' % self.fresh] = u
                self.used.add('local-prefix')
        if kind == 'mc':
            if ns is None:
                if scope.get(''):
                    decls.append(('', ''))
                    scope[''] = ''
                tag = s['name']
            else:
                pres = [p for p in scope if scope[p] == ns]
                if not pres:
                    # hidden by a default namespace of our own further up
                    self.fresh += 1
                    pres = ['q%d' % self.fresh]
                    decls.append((pres[0], ns))
                    scope[pres[0]] = ns
                p = pres[self.pick(len(pres))]
                tag = p + ':' + s['name'] if p else s['name']
        else:
            tag = TAG[kind]
        attrs = []
        if s.get('id') is not None:
            attrs.append(('id', s['id']))
        if s.get('type') is not None:
            attrs.append(('type', s['type']))
        for k, v in (s.get('attrs') or {}).items():
            if k.startswith('{'):
                uri, name = k[1:].split('}')
                if uri == XML_NS:
                    k = 'xml:' + name
                else:
                    pres = [p for p in scope if p and scope[p] == uri]
                    k = pres[self.pick(len(pres))] + ':' + name
            attrs.append((k, v))
        attrs += [('xmlns:' + p if p else 'xmlns', u) for p, u in decls]
        # order of attributes
        out = []
        while attrs:
            out.append(attrs.pop(self.pick(len(attrs))))
        pad = [' ', '\n', '  ', '\t']
        head = '<' + tag + ''.join(
            pad[self.pick(4)] + k + ['=', ' = '][self.pick(6) == 5]
            + self.attval(v) for k, v in out) + ['', ' '][self.pick(2)]
        body = []
        if kind in spec.HAS_TEXT and s.get('text') is not None:
            body.append(self.text(s['text']))
        kids = []
        if kind in spec.HAS_MD:
            kids += [('metadata', m) for m in s.get('metadata') or []]
        if kind != 'item':
            kids += [(spec.CHILD_KIND[kind], c)
                     for c in s.get(spec.KIND_CHILDREN[kind]) or []]
        has_text = bool(body)
        for i, (k, c) in enumerate(kids):
            # white space before the first child would extend the text
            if i or not has_text:
                body.append(self.gap())
            body.append(self.element(k, c, scope))
        if kids or kind not in spec.HAS_TEXT:
            body.append(self.gap())
        body = ''.join(body)
        if not body and self.pick(2) == 0:
            self.used.add('empty-tag')
            return head + '/>'
        if not body and self.pick(3) == 2:
            body = '<!--empty-->'
        return head + '>' + body + '</' + tag + ['', ' '][self.pick(5) == 4] \
            + '>'

    def document(self, s, encoding):
        decl = self.pick(3)
        need = encoding.lower() not in ('utf-8', 'utf-16')
        out = []
        if need or decl:
            out.append("<?xml version='1.0' encoding='%s'%s?>" % (
                encoding, ' standalone="yes"' if decl == 2 else ''))
        elif decl == 0 and encoding == 'utf-16':
            pass
        out.append(self.gap() if out else self.gap().lstrip())
        out.append(self.element('corpus', s, {}))
        out.append(self.gap())
        return ''.join(out)
