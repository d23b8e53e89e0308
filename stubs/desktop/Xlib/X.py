NONE = 0
NoEventMask = 0
StructureNotifyMask = 1 << 17
SubstructureNotifyMask = 1 << 19
SubstructureRedirectMask = 1 << 20
FocusChangeMask = 1 << 21
PropertyChangeMask = 1 << 22
AnyPropertyType = 0
PointerRoot = 1
CreateNotify = 16
DestroyNotify = 17
PropertyNotify = 28
