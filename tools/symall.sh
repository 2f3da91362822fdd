cd /verif
ids=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C25}
echo $ids | tr ' ' '\n' | xargs -P ${J:-8} -I{} sh -c 'timeout 1500 /opt/venv/bin/python /verif/tools/sym.py {} > /tmp/sy_{}.log 2>&1'
for i in $ids; do cat /tmp/sy_$i.log; done
