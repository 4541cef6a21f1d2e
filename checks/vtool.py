"""The real front end, in process: text -> syntax tree -> dataflow (no preprocessor process, tables built once)."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

_parser = None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def parser():
    """a VerilogParser whose tables are generated in a scratch directory"""
    global _parser
    if _parser is None:
        warnings.simplefilter('ignore')
        import pyverilog.vparser.parser as VP
        d = tempfile.mkdtemp(prefix='pyvc_')
        old = os.getcwd()
        try:
            os.chdir(d)
            with quiet():
                _parser = VP.VerilogParser(outputdir=d, debug=False)
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
    return _parser


def parse(text):
    p = parser()
    with quiet():
        return p.parse(text, debug=0)


def dataflow(text, top='top', noreorder=False):
    """the analyzer object after generate() on this text"""
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    a = object.__new__(VerilogDataflowAnalyzer)
    a.topmodule = top
    a.terms = {}
    a.binddict = {}
    a.frametable = None
    a.noreorder = noreorder
    a.nobind = False
    a.directives = ()
    a.parse = lambda *x, **k: text if not isinstance(text, str) else parse(text)
    with quiet():
        a.generate()
    return a


def analyzer(ast, top='top'):
    """the same, from a syntax tree"""
    return dataflow(ast, top)
