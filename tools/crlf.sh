#!/bin/bash
# keep the line ends that files of /repo had (run before committing a fix there)
cd /repo && for f in $(git diff --name-only); do if git show HEAD:$f | head -3 | grep -q $'\r'; then sed -i 's/\r$//; s/$/\r/' $f; fi; done; git diff --stat
