"""Reference for C33: what the plots show."""
import matplotlib.pyplot as plt
import numpy as np


def wiggle(ax, colors, t, d, base):
    pos, neg = colors
    if pos:
        ax.fill_between(t, base + d, base, where=d >= 0, lw=0., facecolor=pos)
    if neg:
        ax.fill_between(t, base + d, base, where=d < 0, lw=0., facecolor=neg)
    ax.plot(t, base + d, 'k')


def finish(fig, fname, dpi):
    if not fname:
        return fig
    fig.savefig(fname, dpi=dpi)
    plt.close(fig)


def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
            stack_height=0.5, dpi=None,
            trace_scale=False, scale_factor=1, fillcolors=(None, None),
            trim=None,
            info=(('back_azimuth', u'baz (°)', 'C0'),
                  ('distance', u'dist (°)', 'C3')),
            show_traces=True,
            show_vlines=False):
    if len(stream) == 0:
        return None
    if trim:
        stream = stream.slice2(*trim, reftime='onset')
    if not show_traces:
        info = None
        trace_height = 0
    N = len(stream)
    height = trace_height * (N + 2) + stack_height + 0.8
    width = fig_width - 0.7
    if info:
        width = width - 0.9
    fig = plt.figure(figsize=(fig_width, height), dpi=dpi)
    left = 0.5 / fig_width
    traces = [left, 0.5 / height, width / fig_width,
              trace_height / height * (N + 2)]
    if show_traces:
        ax1 = fig.add_axes(traces)
    if info:
        panel = fig.add_axes([1 - 0.2 / fig_width - 0.8 / fig_width,
                              0.5 / height, 0.8 / fig_width,
                              trace_height / height * (N + 2)], sharey=ax1)
        info = list(info)
        info[0] = [panel] + list(info[0])
        if len(info) > 1:
            info[1] = [panel.twiny()] + list(info[1])
    amp = max(np.max(np.abs(tr.data)) for tr in stream)
    for i, tr in enumerate(stream):
        t = tr.times(reftime=tr.stats.onset)
        if show_traces:
            if trace_scale:
                amp = max(np.abs(tr.data))
            wiggle(ax1, fillcolors, t, scale_factor * tr.data / amp, i + 1)
    if info:
        for ax, key, label, color in info:
            ax.plot([tr.stats[key] for tr in stream], 1 + np.arange(N),
                    '.' + color, mec=color)
    try:
        stack = stream.stack()
    except ValueError:
        pass
    else:
        if len(stack) == 1:
            pos = [left, 1 - 0.2 / height - stack_height / height,
                   width / fig_width, stack_height / height]
            if show_traces:
                ax2 = fig.add_axes(pos, sharex=ax1)
            else:
                ax2 = fig.add_axes(pos)
            wiggle(ax2, fillcolors, t, stack[0].data, 0)
    return finish(fig, fname, dpi)


def plot_profile(profile, fname=None, figsize=None, dpi=None,
                 scale=1, fillcolors=('C3', 'C0'),
                 trim=None, top=None, moveout_model='iasp91'):
    if len(profile) == 0:
        return None
    if trim:
        profile = profile.slice2(*trim, reftime='onset')
    fig = plt.figure(figsize=figsize, dpi=dpi)
    ax = fig.add_axes([0.1, 0.1, 0.8, 0.7])
    width = min([tr.stats.box_length for tr in profile])
    amp = max(np.max(np.abs(tr.data)) for tr in profile)
    pos, neg = fillcolors
    for tr in profile:
        x0 = tr.stats.box_pos
        x = x0 + scale * tr.data / amp * width
        t = tr.times() - (tr.stats.onset - tr.stats.starttime)
        ax.plot(x, t, 'k')
        if pos:
            ax.fill_betweenx(t, x, x0, where=x >= x0, facecolor=pos)
        if neg:
            ax.fill_betweenx(t, x, x0, where=x < x0, facecolor=neg)
    if top is not None:
        ax3 = fig.add_axes([0.1, 0.85, 0.8, 0.1], sharex=ax)
        if top != 'hist':
            raise NotImplementedError()
        ax3.bar([tr.stats.box_pos - tr.stats.box_length / 2
                 for tr in profile],
                [tr.stats.num for tr in profile],
                [tr.stats.box_length for tr in profile],
                align='edge', color='cadetblue')
    return finish(fig, fname, dpi)


def axes(crs, latlons):
    if crs is None:
        from cartopy.crs import AzimuthalEquidistant
        lat, lon = np.median(latlons, axis=0)
        crs = AzimuthalEquidistant(*np.median(latlons, axis=0)[::-1])
    return plt.axes(projection=crs)


def geo():
    from cartopy.crs import PlateCarree
    return PlateCarree()


def ppoints_of(points, inventory=None, label_stations=True, ax=None,
               crs=None, **kwargs):
    from rf.imaging import plot_ppoints as plot
    return plot([(p.lat, p.lon) for p in points], inventory,
                label_stations, ax, crs, **kwargs)


def ppoints_ref(points, inventory=None, label_stations=True, ax=None,
                crs=None, **kwargs):
    return plot_ppoints([(p.lat, p.lon) for p in points], inventory,
                        label_stations, ax, crs, **kwargs)


def plot_ppoints(ppoints, inventory=None, label_stations=True, ax=None,
                 crs=None, **kwargs):
    if ax is None:
        ax = axes(crs, ppoints)
    if inventory is not None:
        from rf.imaging import plot_stations
        plot_stations(inventory, label_stations=label_stations, ax=ax)
    kw = dict(s=50, marker='x', color='k', alpha=0.2, zorder=2)
    kw.update(kwargs)
    ax.scatter(*list(zip(*ppoints))[::-1], transform=geo(), **kw)
    return ax


def plot_stations(inventory, label_stations=True, ax=None, crs=None,
                  **kwargs):
    try:
        stations = sorted(set([
            ((tr.stats.station_latitude, tr.stats.station_longitude),
             tr.stats.station) for tr in inventory]))
        latlons, names = zip(*stations)
    except AttributeError:
        latlons, names = zip(*[((sta.latitude, sta.longitude), sta.code)
                               for net in inventory for sta in net])
    if ax is None:
        ax = axes(crs, latlons)
    kw = dict(s=200, marker='v', c='darkred', linewidth=0.5, zorder=3)
    kw.update(kwargs)
    ax.scatter(*list(zip(*latlons))[::-1], transform=geo(), **kw)
    if label_stations:
        for latlon, name in zip(latlons, names):
            ax.annotate(name, latlon[::-1])
    return ax


def plot_profile_map(boxes, inventory=None, label_stations=True,
                     ppoints=None, ax=None, crs=None, **kwargs):
    if ax is None:
        ax = axes(crs, [boxes[len(boxes) // 2]['latlon']])
    if inventory is not None:
        from rf.imaging import plot_stations
        plot_stations(inventory, label_stations=label_stations, ax=ax)
    if ppoints is not None:
        from rf.imaging import plot_ppoints
        plot_ppoints(ppoints, ax=ax)
    kw = dict(facecolor='none', edgecolor='0.8', zorder=1)
    kw.update(kwargs)
    for box in boxes:
        ax.add_geometries([box['poly']], crs=geo(), **kw)
    return ax


def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
    if trim:
        try:
            hd = hd.slice2(*trim, reftime='onset')
            if hd2:
                hd2 = hd2.slice2(*trim, reftime='onset')
        except AttributeError:
            pass
    left = hd.select(location='mod')
    amp = max(abs(hd.select(channel='0', location='mod')[0].data))
    for tr in hd:
        if max(abs(tr.data)) > amp:
            amp = max(abs(tr.data))
    if hd2:
        right = hd2.select(location='mod')
        amp2 = max(abs(hd2.select(channel='0', location='mod')[0].data))
        for tr in hd2.select(location='mod'):
            if max(abs(tr.data)) > amp2:
                amp2 = max(abs(tr.data))
    else:
        right = hd.select(location='unmod')
        amp2 = amp
    fig = plt.figure(constrained_layout=True)
    gs = fig.add_gridspec(1, 2)
    ax1 = fig.add_subplot(gs[:, 0])
    ax2 = fig.add_subplot(gs[:, 1], sharey=ax1, sharex=ax1)
    for i in range(5):
        tr = left[i]
        wiggle(ax1, fillcolors, tr.times(reftime=tr.stats.onset),
               tr.data / amp, 4 - int(tr.stats['channel']))
        if len(right) > 0:
            tr = right[i]
            wiggle(ax2, fillcolors, tr.times(reftime=tr.stats.onset),
                   tr.data / amp2, 4 - int(tr.stats['channel']))
    return fig
