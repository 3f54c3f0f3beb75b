PROP = 'C27'
EDITS = [('klayout_pex/log/logger.py', "    rich_handler.addFilter(LogLevelFilter(['SUBPROCESS'], invert=True))\n", "    rich_handler.addFilter(LogLevelFilter(['VERBOSE', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']))\n")]
NEEDS = 'log level DEBUG and a debug message'
BREAKS = 'debug messages are not shown on the console although asked for'
DEMO = '''
import io
from klayout_pex import log
from klayout_pex.log import logger
logger.console._file = io.StringIO()
log.set_log_level(log.LogLevel.DEBUG)
log.debug('a message')
log.info('another')
t = logger.console._file.getvalue()
assert 'a message' in t and 'another' in t, t
'''
