import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import report


def lazy(mod, fn):
    def f(rep):
        return getattr(__import__(mod), fn)(rep)
    return f


TABLE = {
    'C02': lazy('p_nego', 'c02'),
    'C03': lazy('p_nego', 'c03'),
    'C04': lazy('p_smq', 'c04'),
    'C16': lazy('p_blob', 'c16'),
    'C18': lazy('p_b64', 'c18'),
    'C19': lazy('p_jid', 'c19'),
    'C20': lazy('p_comp', 'c20'),
    'C09': lazy('p_ser', 'c09'),
    'C07': lazy('p_auth', 'c07'),
    'C17': lazy('p_hash', 'c17'),
    'C10': lazy('p_parse', 'c10'),
    'C14': lazy('p_sock', 'c14'),
    'C15': lazy('p_dns', 'c15'),
    'C08': lazy('p_tls', 'c08'),
    'C05': lazy('p_sm', 'c05'),
    'C06': lazy('p_queue', 'c06'),
    'C11': lazy('p_handlers', 'c11'),
    'C13': lazy('p_life', 'c13'),
}

if __name__ == '__main__':
    report.main(TABLE)
