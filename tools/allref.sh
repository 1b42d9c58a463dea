# every refactoring corpus, from a copy of the checker: prints only alarms and failures
rm -rf /tmp/vrun; cp -a "$(dirname "$0")/.." /tmp/vrun; cd /tmp/vrun; rm -rf .git
ls tools/reforms/*.txt | xargs -P 7 -I{} sh -c 'DST=/tmp/refc_$(basename {} .txt) python3 tools/reform.py {} 2>&1 | cut -c 1-260 > /tmp/ref_$(basename {} .txt).log'
grep -v "quiet undecided" /tmp/ref_*.log | grep -v "alarms 0"
echo finished
rm -rf /tmp/vrun
