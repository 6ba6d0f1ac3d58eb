"""Independent statement of which holding registers each model and privilege tier may write."""
from .topo import AC_CONFIG, EMS, THREE_PHASE

SLOTS_3_10 = {246 + 3 * k + o for k in range(8) for o in (0, 1)} | {276 + 3 * k + o for k in range(8) for o in (0, 1)}
SINGLE = {20, 27, 29, 31, 32, 35, 36, 37, 38, 39, 40, 44, 45, 50, 56, 57, 59, 94, 95, 96, 110, 111, 112, 114, 116, 163, 166} | SLOTS_3_10
THREE = (SINGLE - {94, 95, 31, 32, 56, 57, 44, 45, 96, 110, 116}) | {1078, 1109, 1111, 1112, 1113, 1114, 1115, 1116, 1118, 1119, 1120, 1121,
                                                                     1122, 1123}
EMS_SET = {2040} | set(range(2044, 2072))
AC_SET = {311, 313, 314, 317}
INSTALLER = set(range(63, 84)) | {101, 102, 115, 174, 201, 308, 309, 310, 300, 302, 303, 305, 306, 307, 312, 315, 316} | set(range(321, 331)) | \
    set(range(332, 352)) | set(range(540, 549)) | {552, 553, 1048, 1063, 1077} | set(range(1081, 1088)) | {1102, 1103} | set(range(1125, 1132)) | \
    {1144, 1149, 1156} | set(range(1158, 1166)) | {4001, 5002, 5005, 5006, 5007, 5008, 5009, 5011, 5012, 20000, 20001, 20002, 20003, 20020, 20021,
                                                   20050, 20051, 162, 1016, 5003, 5004}


def permitted(model):
    """Registers writable at the normal tier; model None = not detected."""
    if model in EMS:
        return EMS_SET
    if model in THREE_PHASE:
        return THREE
    return SINGLE | AC_SET if model in AC_CONFIG else SINGLE


def allowed(model, tier, reg, value, installer):
    if not 0 <= value <= 0xFFFF:
        return False
    if tier == "cmd":
        return not installer and reg in permitted(model)
    return reg in INSTALLER if installer else reg in permitted(model)
