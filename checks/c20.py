"""C20: what is logged where."""
import contextlib
import io
import logging
import os
import sys
import tempfile

RULE = ('One execution = one history of logger configurations (display level, file level, file name) and messages of every '
        'level from every place; console and files are compared with a reference after every message.')
ASSUMPTIONS = ['a log file requested again may keep its old contents until the first new message is written to it']
LV = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
OFF = logging.CRITICAL + 1


@contextlib.contextmanager
def sandbox():
    """Scratch directory, captured console, logger restored afterwards."""
    lg = logging.getLogger('beluga')
    keep = (list(lg.handlers), lg.level, getattr(lg, 'display_level_', None), lg.propagate)
    old, out, err = (sys.stdout, sys.stderr), io.StringIO(), io.StringIO()
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        sys.stdout, sys.stderr = out, err
        try:
            yield d, out, err
        finally:
            sys.stdout, sys.stderr = old
            os.chdir(cwd)
            for h in lg.handlers:
                if h not in keep[0]:
                    h.close()
            lg.handlers, lg.display_level_, lg.propagate = keep[0], keep[2], keep[3]
            lg.setLevel(keep[1])


def history(ctx, P):
    import beluga
    from beluga.utils import logger as lg1
    from beluga.utils.logging import logger as lg2
    with sandbox() as (d, out, err):
        disp, flev, fname = None, None, None
        console, files = [], {}
        fresh = set()                # requested again, nothing written since
        serial = 0

        def verify(what):
            text = out.getvalue()
            got = [w for w in text.replace('\n', ' ').split() if w.startswith('msg')]
            ctx.check(got == console, what + ': the console shows the wrong messages', got=got, want=console, disp=disp,
                      file=flev)
            ctx.check(err.getvalue() == '', what + ': messages on stderr', err=err.getvalue())
            for n, want in files.items():
                path = os.path.join(d, n)
                have = open(path).read() if os.path.exists(path) else ''
                got = [w for w in have.replace('\n', ' ').split() if w.startswith('msg')]
                ctx.check(got == want[1] or n in fresh and got in ([], want[0]), what + ': the file has the wrong messages',
                          name=n, got=got, want=want, disp=disp, flev=flev)
            extra = set(os.listdir(d)) - set(files)
            ctx.check(not extra, what + ': unexpected files', extra=extra)

        for i in range(P['configs']):
            disp = ctx.choose('display level %d' % i, P['levels'])
            flev = ctx.choose('file level %d' % i, P['levels'])
            fname = ctx.choose('file %d' % i, P['files'])
            fn = beluga.add_logger if ctx.choose('through %d' % i, P['through']) == 'add' else beluga.utils.init_logging
            if fname is None:
                fn(display_level=disp, file_level=flev)
                fname = 'beluga.log'
            else:
                fn(display_level=disp, file_level=flev, filename=fname)
            if flev > logging.NOTSET:
                files[fname] = (files.get(fname, ([], []))[1], [])
                fresh.add(fname)
            for level in LV:
                who = ('beluga', 'beluga.utils', 'utils.logging', 'child')[serial % 4]
                lg = dict(zip(('beluga', 'beluga.utils', 'utils.logging', 'child'),
                              (logging.getLogger('beluga'), lg1, lg2, logging.getLogger('beluga.sub.module'))))[who]
                serial += 1
                tag = 'msg%d-%d' % (serial, level)
                lg.log(level, tag)
                if level >= disp:
                    console.append(tag)
                if flev > logging.NOTSET and level >= flev:
                    files[fname][1].append(tag)
                    fresh.discard(fname)
                verify('after a message')
        ctx.state(disp, flev, fname, console, {k: v[1] for k, v in files.items()})


def solving(ctx, P):
    """A whole solve respects the levels: nothing below the display level on the console, and the file gets its own share."""
    import beluga
    from checks import c16
    prob, bvp = c16.bvp_of('di', 'traditional', 'algebraic')
    disp = ctx.choose('display level', P['levels'])
    flev = ctx.choose('file level', P['levels'])
    with sandbox() as (d, out, err):
        beluga.add_logger(display_level=disp, file_level=flev, filename='run.log')
        lg = logging.getLogger('beluga')
        seen = []

        class Spy(logging.Handler):
            def emit(self, record):
                seen.append(record)
        spy = Spy(level=1)
        lg.addHandler(spy)
        steps = beluga.init_continuation()
        steps.add_step('manual').num_cases(2).const('x_f', 1.2)
        gen = beluga.guess_generator('auto', start=[0.3, 0.1], time_integrate=1.0)
        os.environ['TQDM_DISABLE'] = '1'
        beluga.solve(ocp=prob, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol, guess_generator=gen,
                     bvp_algorithm=c16.echo([]), steps=steps, autoscale=False, save_sols=False)
        lg.removeHandler(spy)
        text = out.getvalue()
        have = open('run.log').read() if os.path.exists('run.log') else ''
        if 0 < flev <= logging.DEBUG or disp <= logging.DEBUG:
            ctx.check(len(seen) > 5, 'messages are missing', n=len(seen))
        for r in seen:
            m = r.getMessage().strip()
            if not m:
                continue
            # compare the first line: messages may span several
            line = m.splitlines()[-1]
            ctx.check((line in text) == (r.levelno >= disp), 'console: message shown or hidden against its level',
                      message=m, level=r.levelno, disp=disp)
            ctx.check((line in have) == (flev > 0 and r.levelno >= flev), 'file: message written or dropped against its level',
                      message=m, level=r.levelno, flev=flev)
        if disp >= OFF:
            ctx.check(text == '', 'console is not silent', text=text)
        if flev == 0:
            ctx.check(os.listdir(d) == [], 'a log file appeared', files=os.listdir(d))
        ctx.state(disp, flev, len(seen))


HARNESSES = dict(
    history=dict(fn=history, rule='all histories of configurations, a message of every level after each',
                 quick=dict(configs=2, levels=[0] + LV + [OFF], files=['a.log', 'b.log'], through=['add']),
                 thorough=dict(configs=3, levels=[0, logging.DEBUG, logging.INFO, logging.ERROR, OFF], files=['a.log', None, 'b.log'],
                               through=['add', 'init'])),
    single=dict(fn=history, rule='every single configuration', quick=dict(configs=1, levels=[0, 5] + LV + [25, OFF],
                                                                          files=['a.log', None], through=['add', 'init'])),
    solving=dict(fn=solving, rule='a whole solve at all levels', quick=dict(levels=[0] + LV + [OFF])),
)
