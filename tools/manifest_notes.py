TECH_DEFAULT = 'bounded exhaustive state exploration of the real implementation against a reference model'
NOTE_DEFAULT = (
    'stateless model checking: every execution inside the stated bounds is run on the code in /repo, and every step '
    'is compared with an independent reference model'
)
