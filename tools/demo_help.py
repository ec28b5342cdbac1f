"""Helpers of the demonstrations: run interpreters on given lines with captured output."""
import asyncio
import io
import os
import sys
import tempfile


class Lines:
    """Feeds lines to an interpreter in place of the terminal; an exception among the lines is raised."""

    def __init__(self, cli, lines, on_end=None):
        self.cli, self.lines, self.on_end = cli, list(lines), on_end
        self.prompts = []
        self.masks = []
        rl = cli.readline
        rl.readline = self.readline
        rl.input = self.input

    async def readline(self, prompt=""):
        self.prompts.append(prompt)
        await asyncio.sleep(0)
        if not self.lines:
            if self.on_end:
                self.on_end()
                return ""
            await asyncio.sleep(30)
        x = self.lines.pop(0)
        if isinstance(x, BaseException):
            raise x
        return x

    async def input(self, prompt="", mask_input=False):
        self.masks.append(mask_input)
        return await self.readline(prompt)


def new_loop():
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    return loop


def make(cls, loop=None, **kw):
    out, err = io.StringIO(), io.StringIO()
    kw.setdefault('stdin', io.StringIO())
    kw.setdefault('prompt', '# ')
    cli = cls(loop=loop or new_loop(), stdout=out, stderr=err, **kw)
    cli.t_out, cli.t_err = out, err
    return cli


def run(cli, coro, timeout=20):
    return cli.loop.run_until_complete(asyncio.wait_for(coro, timeout))


def loop_lines(cli, lines, timeout=20):
    """Run the interpreter's loop on the lines and then leave it."""
    feed = Lines(cli, lines, on_end=lambda: leave(cli))
    run(cli, cli.cmdloop(), timeout)
    return feed


def leave(cli):
    c = cli
    while c is not None:
        c.exit_loop()
        c = c.child_cli


def check(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.exit(1)
