"""param="script_code": ISO 15924 codes (and language-script combinations) name the scripts they should."""
from vf import codes

ID = 'C13'
LEVEL = 'exploration'
RULE = ('a case is one conversion asked for by script codes in some letter case, compared with the same conversion by script names (or an unknown code, '
        'which must raise); each distinct call counts once')
ASSUMPTIONS = ['spec/codes.json: resolution computed independently from the shipped tables of the audited tree; codes of several equally popular scripts left out']
SHRINK = ('text', 'pre', 'post')


def jobs(tier, seed):
    return codes.jobs(['script_code'], tier, seed)


run_job = codes.run_job
judge = codes.judge
