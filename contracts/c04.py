"""C04: windows."""
from vlib import *
from pysad.utils.window import Window, UnlimitedWindow

class WindowContract:
    """Window(w): after any updates, get() is the last min(n, w) items in order."""
    prop = 'C04'
    params = {'w': 'int>=1'}
    streams = {'x': 'U'}
    def init(self, w):
        self.w = w
        self.obj = Window(w)
    def on_update(self, x):
        r = self.obj.update(x)
    def check(self):
        require_eq(self.obj.get(), last(self.hist, self.w), 'get is the last w items in arrival order')
        require_eq(self.obj.get(), last(self.hist, self.w), 'reading does not change the window')
    def views(self):
        return [last(self.hist, self.w), self.hist]

class UnlimitedWindowContract:
    """UnlimitedWindow(): get() is every item, in order."""
    prop = 'C04'
    streams = {'x': 'U'}
    def init(self):
        self.obj = UnlimitedWindow()
    def on_update(self, x):
        self.obj.update(x)
    def check(self):
        require_eq(self.obj.get(), self.hist, 'get is every item in arrival order')
        require_eq(self.obj.get(), self.hist, 'reading does not change the window')
    def views(self):
        return [self.hist]
