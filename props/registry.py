"""property id -> check function"""
import p_v, p_e, p_k, p_a, p_h, p_s, p_d
CHECKS = {}
for m in (p_v, p_e, p_k, p_a, p_h, p_s, p_d):
    CHECKS.update(m.CHECKS)
for i, files in p_s.ALSO.items():
    CHECKS[i] = p_s.also(CHECKS[i], *files)
