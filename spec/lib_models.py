"""What the analyser knows about classes of libraries: their documented behaviour, written as code it can interpret."""

MODELS = {'xml.etree.ElementTree.Element': 'Element', 'xml.etree.ElementTree.SubElement': 'sub_element',
          'pm4py.objects.log.obj.Event': 'PmEvent', 'pm4py.objects.log.obj.Trace': 'PmTrace',
          'pm4py.objects.log.obj.EventLog': 'PmLog'}


class Element:
    """xml.etree.ElementTree.Element"""

    def __init__(self, tag, attrib={}, **extra):
        self.tag = tag
        self.attrib = dict(attrib)
        self.attrib.update(extra)
        self.text = None
        self.children = []

    def append(self, subelement):
        self.children.append(subelement)

    def extend(self, elements):
        self.children.extend(elements)

    def insert(self, index, subelement):
        self.children.insert(index, subelement)

    def set(self, key, value):
        self.attrib[key] = value

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)


def sub_element(parent, tag, attrib={}, **extra):
    e = Element(tag, attrib, **extra)
    parent.children.append(e)
    return e


class PmEvent:
    """pm4py Event"""

    def __init__(self, items=None):
        self._dict = dict(items) if items is not None else {}

    def __getitem__(self, key):
        return self._dict[key]

    def __setitem__(self, key, value):
        self._dict[key] = value


class PmTrace:
    """pm4py Trace"""

    def __init__(self, items=None, attributes=None):
        self._attributes = attributes if attributes is not None else {}
        self._list = list(items) if items is not None else []

    @property
    def attributes(self):
        return self._attributes

    def append(self, x):
        self._list.append(x)


class PmLog:
    """pm4py EventLog"""

    def __init__(self, items=None, attributes=None):
        self._attributes = attributes if attributes is not None else {}
        self._list = list(items) if items is not None else []

    @property
    def attributes(self):
        return self._attributes

    def append(self, x):
        self._list.append(x)
