PROP = 'C27'
EDITS = [('klayout_pex/log/logger.py', """    if not kwargs.get('stacklevel'):  # ensure logged file location is correct
        kwargs['stacklevel'] = 2
    __logger.warning(*args, **kwargs)
""", """    kwargs['stacklevel'] = 2  # ensure logged file location is correct
    __logger.warning(*args, **kwargs)
""")]
NEEDS = 'a warning logged by a helper that names its own caller (stacklevel=3)'
BREAKS = 'the place shown is the helper, not its caller'
DEMO = '''
import logging
from klayout_pex import log
recs = []
class H(logging.Handler):
    def emit(self, r): recs.append(r)
log.register_additional_handler(H())
def helper(m): log.warning(m, stacklevel=3)
def caller(): helper('a message')
caller()
assert recs[0].funcName == 'caller', recs[0].funcName
'''
