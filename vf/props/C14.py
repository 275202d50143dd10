"""param="lang_code" and "lang_name": language codes and English names of languages select the script they should."""
from vf import codes

ID = 'C14'
LEVEL = 'exploration'
RULE = ('a case is one conversion asked for by language codes or names in some letter case, compared with the same conversion by script names (or an unknown code, '
        'which must raise); each distinct call counts once')
ASSUMPTIONS = ['spec/codes.json: resolution computed independently from the shipped tables of the audited tree; codes of several equally popular scripts left out']
SHRINK = ('text', 'pre', 'post')


def jobs(tier, seed):
    return codes.jobs(['lang_code', 'lang_name'], tier, seed)


run_job = codes.run_job
judge = codes.judge
