"""property id -> (module, function, meta)"""
CHECKS = {
    "P08": ("wire", "wire_check", {"level": "other"}),
    "P09": ("wire", "size_check", {"level": "other"}),
    "P02": ("store", "item_status", {"level": "other"}),
    "P03": ("status", "vocabulary", {"level": "other"}),
    "P04": ("client", "arguments", {"level": "other"}),
    "P05": ("client", "forwarding", {"level": "other"}),
    "P10": ("client", "put_permutations", {"level": "other"}),
    "P35": ("client", "packets", {"level": "other"}),
}
CHECKS["P32"] = ("place", "mapping", {"level": "other"})
CHECKS["P34"] = ("place", "hashing", {"level": "other"})
CHECKS["P01"] = ("flow", "sending", {"level": "other"})
CHECKS["P06"] = ("results", "conversion", {"level": "other"})
CHECKS["P24"] = ("locks", "races", {"level": "other"})
CHECKS["P25"] = ("locks", "waiting", {"level": "other"})
CHECKS["P20"] = ("locks", "datastore", {"level": "other"})
CHECKS["P12"] = ("serve", "range_server", {"level": "other"})
CHECKS["P21"] = ("hist", "counts", {"level": "other"})
CHECKS["P22"] = ("hist", "keep", {"level": "other"})
CHECKS["P14"] = ("getop", "getop", {"level": "other"})
CHECKS["P07"] = ("access", "access", {"level": "other"})
CHECKS["P31"] = ("options", "options", {"level": "other"})
CHECKS["P28"] = ("life", "opened", {"level": "other"})
CHECKS["P29"] = ("life", "closed", {"level": "other"})
CHECKS["P33"] = ("life", "changing", {"level": "other"})
CHECKS["P15"] = ("keys", "keys", {"level": "other"})
CHECKS["P16"] = ("keys", "transforms", {"level": "other"})
CHECKS["P26"] = ("handover", "handover", {"level": "other"})
CHECKS["P38"] = ("info", "info", {"level": "other"})
CHECKS["P36"] = ("blob", "blobs", {"level": "other"})
