"""Colours: unique per run, kept per name."""
import random
from ficus.legacy.util import RandomUniqueColorsProvider, SingleColorProvider, to_hex, _generate_random_color, \
    random_unique_color_provider_instance
from ficus.legacy.analysis.event_log_analysis import Color


class Hex:
    """two digits for each of red, green and blue"""
    props = ('C25',)
    target = 'to_hex'

    @staticmethod
    def code(r: int, g: int, b: int):
        return to_hex((r, g, b)), Color(r, g, b).to_hex()

    @staticmethod
    def spec(r, g, b):
        s = '#%02X%02X%02X' % (r, g, b)
        return s, s


class RandomColour:
    """every channel over its full range"""
    props = ('C25',)
    target = '_generate_random_color'

    @staticmethod
    def code():
        return _generate_random_color()

    @staticmethod
    def spec():
        r = random.randint(0, 255)
        g = random.randint(0, 255)
        b = random.randint(0, 255)
        return to_hex((r, g, b))


class Unique:
    """a colour not used yet, which is used from then on"""
    props = ('C25',)
    target = 'RandomUniqueColorsProvider.next'
    stream = ('_generate_random_color',)

    @staticmethod
    def code(p: RandomUniqueColorsProvider):
        return p.next()

    @staticmethod
    def spec(p):
        if len(p.used_colors) == 256 ** 3:
            raise OverflowError()
        c = _generate_random_color()
        while c in p.used_colors:
            c = _generate_random_color()
        p.used_colors.add(c)
        return c


class Forget:
    """after a reset no colour is used"""
    props = ('C25',)
    target = 'RandomUniqueColorsProvider.reset'

    @staticmethod
    def code(c: str):
        p = RandomUniqueColorsProvider()
        a = len(p.used_colors)
        p.used_colors.add(c)
        p.reset()
        return a, len(p.used_colors)

    @staticmethod
    def spec(c):
        return 0, 0


class Single:
    """one colour until the reset, then another unused one"""
    props = ('C25',)
    target = 'SingleColorProvider'
    stream = ('RandomUniqueColorsProvider.next',)

    @staticmethod
    def code():
        s = SingleColorProvider()
        a, b = s.next(), s.next()
        s.reset()
        return a, b, s.next(), s.next()

    @staticmethod
    def spec():
        x = random_unique_color_provider_instance.next()
        y = random_unique_color_provider_instance.next()
        return x, x, y, y
