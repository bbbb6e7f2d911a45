for t in "$@"; do MX_WORKERS=${W:-2} Q=${Q:-110} S=${S:-1} /tmp/seedw/trial.sh $t 2>&1 | grep rc=; done
