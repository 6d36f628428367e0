"""Which class/field/function plays which part, found from the public API and types.

Public classes and enums (argos::ArgumentParser, argos::OptionType...) are anchors.
Implementation classes are the pointees of their smart-pointer members; fields are
found by type, or by what the public setter of that attribute writes."""
import re
from facts import AnalysisBroken
import engine as E

SP = re.compile(r'std::(?:unique|shared)_ptr<(?:const )?([\w:]+)')


class Quiet(E.Rule):
    pass


class Roles:
    def __init__(self, p):
        self.p = p
        self.PD = self.pointee('argos::ArgumentParser')
        self.AI = self.pointee('argos::ArgumentIterator')
        self.PA = self.pointee('argos::ParsedArguments')
        self.OD = self.pointee('argos::Option')
        self.AD = self.pointee('argos::Argument')
        self.CD = self.pointee('argos::Command')
        self._attr = {}
        self.pd = {'command': [f['n'] for f in p.cls(self.PD)['fields'] if f['t'] == self.CD][0]}
        ptr = r'const %s \*$'
        v_up = r'^std::vector<std::unique_ptr<%s>>$'
        v_sp = r'^std::vector<std::shared_ptr<%s>>$'
        self.ai = self.fields(self.AI, {
            'data': r'std::shared_ptr<%s>$' % self.PD,
            'command': ptr % self.CD,
            'results': v_sp % self.PA,
            'iter': None, 'counter': None, 'state': None})
        for f in p.cls(self.AI)['fields']:
            t = f['t']
            if t in p.enums:
                self.ai['state'] = f['n']
                self.STATE = t
            elif t in p.classes:
                ms = {m['n'] for m in p.classes[t]['methods']}
                if 'next_value' in ms or 'remaining_arguments' in ms:
                    self.ai['iter'] = f['n']
                    self.ITER = t
                elif any(m['t'].endswith(self.AD + ' *') or m['t'] == 'const %s *' % self.AD
                         for m in p.classes[t]['methods'] if m.get('t')):
                    self.ai['counter'] = f['n']
                    self.COUNTER = t
        self.need(self.ai, self.AI)
        states = [n for n, _ in p.enum(self.STATE)]
        self.S = {}
        for s in ('ARGUMENTS_AND_OPTIONS', 'ARGUMENTS_ONLY', 'DONE', 'ERROR'):
            if s not in states:
                raise AnalysisBroken("iterator state %s not found" % s)
            self.S[s] = ('e', self.STATE, s)
        self.pa = self.fields(self.PA, {
            'values': r'^std::multimap<argos::ValueId', 'ids': r'^std::vector<std::tuple<',
            'rest': r'^std::vector<std::basic_string<char>>$', 'command': ptr % self.CD,
            'subs': v_sp % self.PA, 'data': r'std::shared_ptr<%s>$' % self.PD,
            'code': r'^argos::ParserResultCode$', 'stop': ptr % self.OD})
        self.need(self.pa, self.PA)
        self.cd = self.fields(self.CD, {
            'arguments': v_up % self.AD, 'options': v_up % self.OD, 'commands': v_up % self.CD,
            'texts': r'^std::map<argos::TextId', 'require': r'^std::optional<bool>$',
            'visibility': r'^argos::Visibility$', 'index': r'^std::vector<std::pair<std::basic_string_view'})
        self.need({k: self.cd[k] for k in ('arguments', 'options', 'commands', 'texts', 'require')}, self.CD)
        self.od = self.fields(self.OD, {
            'flags': r'^std::vector<std::basic_string<char>>$', 'callback': r'^std::function<',
            'operation': r'^argos::OptionOperation$', 'type': r'^argos::OptionType$',
            'visibility': r'^argos::Visibility$', 'optional': r'^bool$',
            'value_id': r'^argos::ValueId$', 'argument_id': r'^argos::ArgumentId$'})
        self.need(self.od, self.OD)
        self.ad = self.fields(self.AD, {
            'callback': r'^std::function<', 'visibility': r'^argos::Visibility$',
            'value_id': r'^argos::ValueId$', 'argument_id': r'^argos::ArgumentId$'})
        self.need(self.ad, self.AD)
        for n in ('help', 'section', 'alias', 'argument', 'constant', 'initial_value'):
            self.od[n] = self.attr('argos::Option', n)[-1]
        for n in ('help', 'section', 'alias', 'name'):
            self.ad[n] = self.attr('argos::Argument', n)[-1]
        for n in ('name', 'section', 'current_section'):
            self.cd[n] = self.attr('argos::Command', n)[-1]
        self.cd['multi'] = self.attr('argos::Command', 'allow_multiple_subcommands')[-1]

    def pointee(self, q):
        for f in self.p.cls(q)['fields']:
            m = SP.match(f['t'])
            if m:
                return m.group(1)
        raise AnalysisBroken("no owned implementation in class " + q)

    def fields(self, cls, pats):
        r = {k: None for k in pats}
        fs = self.p.cls(cls)['fields']
        for k, pat in pats.items():
            if pat is None:
                continue
            c = [f['n'] for f in fs if re.search(pat, f['t'])]
            if len(c) == 1 or (c and k in c):
                r[k] = k if k in c else c[0]
        return r

    def need(self, d, cls):
        for k, v in d.items():
            if v is None:
                raise AnalysisBroken("%s: field for '%s' not found" % (cls, k))

    def attr(self, cls, setter):
        """field path (below the implementation object) of a public attribute."""
        key = (cls, setter)
        if key in self._attr:
            return self._attr[key]
        impl = self.pointee(cls)
        names = {f['n'] for f in self.p.cls(impl)['fields']}
        if setter in names:
            self._attr[key] = (setter,)
            return self._attr[key]
        for f in self.p.cls(impl)['fields']:
            sub = self.p.classes.get(f['t'])
            if sub and setter in {g['n'] for g in sub['fields']} and f['t'] != self.CD:
                self._attr[key] = (f['n'], setter)
                return self._attr[key]
        best = None
        for fn in self.p.by_q.get(cls + '::' + setter, []):
            if len(fn['params']) != 1:
                continue
            for o in E.Engine(self.p, Quiet()).run(fn):
                for pl, v in o.st.store.items():
                    if pl[0][0] == 'O' and len(pl) > 1 and E.contains(v, ('arg', fn['params'][0]['n'])):
                        best = best or pl[1:]
        if not best:
            raise AnalysisBroken("cannot find what %s::%s sets" % (cls, setter))
        self._attr[key] = best
        return best

    def setting(self, name):
        return self.attr('argos::ArgumentParser', name)

    def fn(self, q, **kw):
        return self.p.find(q, **kw)

    def code(self, n):
        return ('e', 'argos::ParserResultCode', n)

    def otype(self, n):
        return ('e', 'argos::OptionType', n)

    def oper(self, n):
        return ('e', 'argos::OptionOperation', n)
