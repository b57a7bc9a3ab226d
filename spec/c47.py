"""C47: index of HDF5 files; only the entries named in it matter here."""
RECORD = ('{network}{station}{location}{channel}{event_time}{starttime}'
          '{endtime}')
PROFILE = '{channel}{box_pos}'


def write(self, filename, format, sh_compat=False, **kwargs):
    import obspyh5
    if len(self) == 0:
        return
    kind = self.type
    if kind == 'profile':
        obspyh5.set_index(PROFILE)
    elif kind == 'rf' or kind is None and 'event_time' in self[0].stats:
        obspyh5.set_index(RECORD)
    super(type(self), self).write(filename, format, **kwargs)
