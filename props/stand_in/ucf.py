"""Stands in for ucflib, which is not installed: the part of its interface that
the InDesign handler uses, a mapping of the names in a zip archive to their
bytes that can be read from and saved to a file object."""
import io
import zipfile
from collections import OrderedDict


class UCF(OrderedDict):
    def __init__(self, filename=None):
        super(UCF, self).__init__()
        self.mimetype = None
        self.meta = OrderedDict()
        if filename is not None:
            with zipfile.ZipFile(filename) as archive:
                for name in archive.namelist():
                    data = archive.read(name)
                    if name == "mimetype":
                        self.mimetype = data
                    elif name.startswith("META-INF/"):
                        self.meta[name] = data
                    else:
                        self[name] = data

    def save(self, filename):
        with zipfile.ZipFile(filename, "w", zipfile.ZIP_DEFLATED) as archive:
            if self.mimetype is not None:
                archive.writestr("mimetype", self.mimetype,
                                 zipfile.ZIP_STORED)
            for group in (self, self.meta):
                for name, data in group.items():
                    archive.writestr(zipfile.ZipInfo(name), data)
