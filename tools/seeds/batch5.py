import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk('p31-retry','P31',[('src/command/backup/pageChecksum.c',"""                            .offset = (uint64_t)(blockNo % this->segmentPageTotal) * this->pageSize,""","""                            .offset = (uint64_t)blockNo * this->pageSize,""")],
"an invalid page in the second or a later segment file of a relation","the invalid page is taken for one that is being written and is not reported")
