"""Run-time stand-in of engine.api: the same contract files, evaluated on real objects."""
EV = ('ref', 'gspattern.Event')
PAT = ('ref', 'gspattern.Pattern')
SCHEMA = {'gspattern.Event': ('startTime', 'duration', 'pitch', 'velocity', 'tag', 'originPattern'),
          'gspattern.Pattern': ('duration', 'events', 'viewpoints', 'bpm', 'timeSignature', 'key', 'originFilePath', 'name', 'startTime', 'originPattern', 'resolution')}

class Contract(object):
    target = None
    params = []
    variants = None
    result = None
    props = []
    raises = ()
    use_at_calls = True
    bounded = None
    @staticmethod
    def requires(S, old, a): return iter(())
    @staticmethod
    def ensures(S, old, new, a, result): return iter(())
    @staticmethod
    def modifies(S, old, a): return iter(())
    @staticmethod
    def invariants(S, L): return iter(())
    @staticmethod
    def ghost(S, old, a): return iter(())
