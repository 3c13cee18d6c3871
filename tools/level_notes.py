DEFAULT = ('property-based testing: Hypothesis generators against an independent oracle',
           'generated-input search; nothing is proved beyond the cases explored')
NA = {}
NOTES = {}
