'''Runs the programs of the repository (experiments.*) as a user does: by their command line.'''
import contextlib
import importlib
import io
import logging
import sys

# what the catalogues of experiments.metadata answer; a case fills them
CATALOG = {'regions': {}, 'auto_arima': {}, 'arima': {}, 'arima_clusters': {}, 'auto_clusters': {},
           'kmedoids': {}, 'regular': {}, 'classifier': {}}


class Refused(Exception):
    '''The program ended with an error message.'''


def install(*modules):
    '''Makes the catalogues answer what a case says; before the programs are imported.'''
    import experiments.metadata.arima as a
    import experiments.metadata.arima_clustering as ac
    import experiments.metadata.clustering as c
    import experiments.metadata.region as r
    r.predefined_regions = lambda: dict(CATALOG['regions'])
    a.predefined_auto_arima = lambda: dict(CATALOG['auto_arima'])
    a.predefined_arima_suites = lambda: dict(CATALOG['arima'])
    ac.experiments_for_arima_with_clusters = lambda: dict(CATALOG['arima_clusters'])
    ac.auto_arima_clustering_experiments = lambda: dict(CATALOG['auto_clusters'])
    c.kmedoids_suites = lambda: dict(CATALOG['kmedoids'])
    c.regular_suites = lambda: dict(CATALOG['regular'])
    if any(m.startswith('classifier') for m in modules):
        import experiments.metadata.classifier as cl
        cl.classifier_experiments = lambda: dict(CATALOG['classifier'])
    for m in modules:
        importlib.import_module('experiments.' + m)


class Lines(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def run_logged(module, *argv):
    '''Output of the program and the lines it logs.'''
    root, h = logging.getLogger(), Lines()
    before, level = list(root.handlers), root.level
    root.handlers = [h]
    root.setLevel(logging.INFO)
    try:
        return run(module, *argv, log='INFO'), h.lines
    finally:
        root.handlers = before
        root.setLevel(level)


def run(module, *argv, log='WARN'):
    '''Output of the program.'''
    m = importlib.import_module('experiments.' + module)
    main = getattr(m, 'processRequest', None) or m.call_parser
    saved = sys.argv
    sys.argv = [module] + [str(a) for a in argv] + ['--log', log]
    out, err = io.StringIO(), io.StringIO()
    logging.disable(logging.CRITICAL if log == 'WARN' else logging.NOTSET)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as e:
        if e.code not in (0, None):
            raise Refused('{} {}: exit {}: {}'.format(module, argv, e.code, err.getvalue()[-300:]))
    finally:
        sys.argv = saved
    return out.getvalue()
