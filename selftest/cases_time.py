CA = "src/uberjob/_transformations/caching.py"
FS = "src/uberjob/stores/_file_store.py"
RUN = "src/uberjob/_run.py"
MT = "src/uberjob/stores/_modified_time_source.py"
BODY = '''    if value is None:
        return None
    try:
        # Naive datetimes are interpreted as local time.
        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
    except (OverflowError, ValueError):
        # The instant is not representable in UTC; e.g., datetime.min or datetime.max.
        return value.replace(tzinfo=None)
'''
MTL = "        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())\n"
FR = "    fresh_time = _to_naive_utc_time(fresh_time)\n"
SET = "        modified_time_lookup[node].value = modified_time\n"
BUGS = [
    ("tz-naive-kept", "C18", [(CA, BODY, '''    if value is None or value.tzinfo is None:
        return value
    return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
''')]),
    ("tz-original", "C18", [(CA, BODY, '''    return (
        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
        if value and value.tzinfo
        else value
    )
''')]),
    ("tz-dropped", "C18", [(CA, BODY, '''    if value is None:
        return None
    return value.replace(tzinfo=None)
''')]),
    ("tz-fresh-raw", "C18", [(CA, FR, "")]),
    ("tz-own-raw", "C18", [(CA, MTL, "        modified_time = retry(value_store.get_modified_time)()\n")]),
    ("tz-local-naive", "C18", [(CA, "value.astimezone(dt.timezone.utc).replace(tzinfo=None)", "value.astimezone().replace(tzinfo=None)")]),
    ("tz-fold", "C18", [(CA, "value.astimezone(dt.timezone.utc).replace(tzinfo=None)", "value.replace(fold=0).astimezone(dt.timezone.utc).replace(tzinfo=None)")]),
    ("tz-label-utc", "C18", [(CA, BODY, '''    if value is None:
        return None
    if value.tzinfo is None:
        value = value.replace(tzinfo=dt.timezone.utc)
    return value.astimezone(dt.timezone.utc)
''')]),
    ("tz-mixed", "C18", [(CA, FR, "    fresh_time = fresh_time and fresh_time.astimezone(dt.timezone.utc)\n")]),
    ("tz-store-utc", "C18", [(FS, "dt.datetime.fromtimestamp(t)", "dt.datetime.utcfromtimestamp(t)")]),
    ("tz-store-utc2", "C18", [(FS, "dt.datetime.fromtimestamp(t)", "dt.datetime.fromtimestamp(t, dt.timezone.utc).replace(tzinfo=None)")]),
    ("tz-carried-raw", "C18", [(CA, MTL, "        own_time = retry(value_store.get_modified_time)()\n        modified_time = _to_naive_utc_time(own_time)\n"), (CA, SET, "        modified_time_lookup[node].value = own_time\n")]),
    ("tz-source-naive", "C18", [(MT, '    def get_modified_time(self) -> dt.datetime | None:\n        """Get the modified time."""\n        return self.modified_time', '    def get_modified_time(self) -> dt.datetime | None:\n        return self.modified_time and self.modified_time.replace(tzinfo=None)')]),
    ("tz-fresh-naive-in-run", "C18", [(RUN, "    progress = _coerce_progress(progress)\n", "    if fresh_time is not None and fresh_time.tzinfo is not None:\n        fresh_time = fresh_time.replace(tzinfo=None)\n    progress = _coerce_progress(progress)\n")]),
    ("tz-fallback-always", "C18", [(CA, "        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)\n", "        utc = value.astimezone(dt.timezone.utc)\n        return value.replace(tzinfo=None) if utc.year < 2 or utc.microsecond == 0 else utc.replace(tzinfo=None)\n")]),
    ("tz-timestamp-naive", "C18", [(CA, "value.astimezone(dt.timezone.utc).replace(tzinfo=None)", "value.astimezone(dt.timezone.utc).replace(tzinfo=None).timestamp()"), (CA, "        return value.replace(tzinfo=None)\n", "        return value.replace(tzinfo=None).timestamp()\n")]),
]
SAME = [
    ("tz-aware-utc", [(CA, BODY, '''    if value is None:
        return None
    try:
        return value.astimezone(dt.timezone.utc)
    except (OverflowError, ValueError):
        return value.replace(tzinfo=dt.timezone.utc)
''')], "C18,C03,C05"),
    ("tz-two-steps", [(CA, BODY, '''    if value is None:
        return None
    try:
        if value.tzinfo is None:
            value = value.astimezone()
        utc = value.astimezone(dt.timezone.utc)
    except (OverflowError, ValueError):
        utc = value
    return utc.replace(tzinfo=None)
''')], "C18,C03,C05"),
    ("tz-else", [(CA, BODY, '''    if value is not None:
        try:
            utc_value = value.astimezone(tz=dt.timezone.utc)
        except (OverflowError, ValueError):
            utc_value = value
        value = utc_value.replace(tzinfo=None)
    return value
''')], "C18,C03,C05"),
    ("tz-helper-class", [(CA, BODY, '''    return None if value is None else _normalise(value)


def _normalise(value):
    utc = dt.timezone.utc
    try:
        value = value.astimezone(utc)
    except (OverflowError, ValueError):
        pass
    return value.replace(tzinfo=None)
''')], "C18,C03,C05"),
    ("tz-store-aware", [(FS, "dt.datetime.fromtimestamp(t)", "dt.datetime.fromtimestamp(t, dt.timezone.utc)")], "C18"),
    ("tz-store-local-aware", [(FS, "dt.datetime.fromtimestamp(t)", "dt.datetime.fromtimestamp(t).astimezone()")], "C18"),
    ("tz-late-fresh", [(CA, FR, ""), (CA, "        if (\n            max_ancestor", "        oldest = _to_naive_utc_time(fresh_time)\n        if (\n            max_ancestor"), (CA, "max_ancestor_modified_time, fresh_time\n", "max_ancestor_modified_time, oldest\n")], "C18,C03,C05"),
    ("tz-map", [(CA, MTL, "        modified_time, = map(_to_naive_utc_time, [retry(value_store.get_modified_time)()])\n")], "C18"),
]
