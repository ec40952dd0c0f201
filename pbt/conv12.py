"""Shared by the checks of the 1.2 -> 2.0 upgrade."""
from core import check, sut
import app as A
import model12


class Up(object):
    def __init__(self, case):
        self.docs, self.url, self.sep = case['docs'], case['root'], case['sep']
        with sut('migrating to 2.0'):
            self.app = A.create_app(self.docs, self.url, '2.0', sep=self.sep)
            self.dump = self.app.root.dump()
        check(self.app.root.__class__.__name__ == 'Swagger',
              'the migrated root is not a Swagger object')
        self.model = model12.Model(case)
        self.got = model12.norm2(self.dump)
        self.want = model12.norm2(self.model.convert())


def operations(doc):
    return {p: {m: {k: v for k, v in op.items() if k != 'security'}
                for m, op in item.items()}
            for p, item in doc.get('paths', {}).items()}


def rest(doc):
    out = {k: v for k, v in doc.items() if k not in ('paths', 'definitions')}
    out['paths'] = {p: {m: {k: op[k] for k in ('security', 'tags') if k in op}
                        for m, op in item.items()}
                    for p, item in doc.get('paths', {}).items()}
    return out
