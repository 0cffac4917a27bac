# environment of every check; sourced
export VF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VF_REPO=${VF_REPO:-/repo}
export VF_PY=/opt/venv/bin/python
unset PYTHONPATH
export PYTHONPATH=$VF_ROOT:$VF_REPO
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg OPENMDAO_REPORTS=0 OPENMDAO_WORKDIR=
# trained Kriging caches (git-ignored in the repository); without them training takes many minutes
for d in cfm56 n+3 n+3_hybrid; do
  src=/opt/vp/kriging/$d; dst=$VF_REPO/openconcept/propulsion/empirical_data/$d
  [ -d "$src" ] && [ -d "$dst" ] || continue
  for f in "$src"/*.zip; do
    b=$dst/$(basename "$f"); cmp -s "$f" "$b" || cp -p "$f" "$b"
  done
done
