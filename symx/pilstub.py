"""Stand-in for PIL in concrete runs under an interpreter without it."""

import sys
import types


class StubImage:
    def __init__(self, mode, size, data):
        self.mode = mode
        self.size = tuple(size)
        self.data = bytes(data)
        self.bpp = {'RGBA': 4, 'RGB': 3, 'L': 1, 'P': 1, 'LA': 2}[mode]
        if len(self.data) != self.size[0] * self.size[1] * self.bpp:
            raise ValueError('not enough image data')

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def tobytes(self):
        return self.data

    def getpixel(self, xy):
        x, y = xy
        o = (y * self.size[0] + x) * self.bpp
        return tuple(self.data[o:o + self.bpp])

    def _rows(self):
        w = self.size[0] * self.bpp
        return [[self.data[y * w + x * self.bpp:y * w + (x + 1) * self.bpp]
                 for x in range(self.size[0])] for y in range(self.size[1])]

    def _fromrows(self, rows, size):
        return StubImage(self.mode, size, b''.join(b''.join(r) for r in rows))

    def copy(self):
        return StubImage(self.mode, self.size, self.data)

    def transpose(self, how):
        rows = self._rows()
        rows = [r[::-1] for r in rows] if how == 0 else rows[::-1]
        return self._fromrows(rows, self.size)

    def paste(self, im, box=None, mask=None):
        x0, y0 = (0, 0) if box is None else (box[0], box[1])
        rows = self._rows()
        for y, r in enumerate(im._rows()):
            for x, px in enumerate(r):
                if 0 <= y0 + y < self.size[1] and 0 <= x0 + x < self.size[0]:
                    rows[y0 + y][x0 + x] = px
        self.data = self._fromrows(rows, self.size).data

    def crop(self, box):
        x0, y0, x1, y1 = box
        return self._fromrows([r[x0:x1] for r in self._rows()[y0:y1]], (x1 - x0, y1 - y0))


def install():
    try:
        import PIL.Image
        return
    except ImportError:
        pass
    pil = types.ModuleType('PIL')
    pil.__path__ = []
    img = types.ModuleType('PIL.Image')
    img.FLIP_LEFT_RIGHT = 0
    img.FLIP_TOP_BOTTOM = 1

    class Transpose:
        FLIP_LEFT_RIGHT = 0
        FLIP_TOP_BOTTOM = 1
    img.Transpose = Transpose
    img.frombytes = img.frombuffer = lambda mode, size, data, *a: StubImage(mode, size, data)

    def new(mode, size, color=0):
        n = {'RGBA': 4, 'RGB': 3, 'L': 1}[mode]
        px = bytes(color) if isinstance(color, tuple) else bytes([color] * n)
        return StubImage(mode, size, px * (size[0] * size[1]))
    img.new = new
    img.Image = StubImage
    pil.Image = img
    sys.modules['PIL'] = pil
    sys.modules['PIL.Image'] = img
