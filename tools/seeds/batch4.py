import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk('p03-errlist','P03',[('src/command/archive/push/push.c',"""            pckWriteStrLstP(param, jobData->archiveInfo.errorList);
""","""
            // Errors from the checks apply to the job only when there is no alternative repo to push to
            pckWriteStrLstP(param, lstSize(jobData->archiveInfo.repoList) > 1 ? strLstNew() : jobData->archiveInfo.errorList);
""")],"three repositories, asynchronous archiving, and one repository whose archive.info cannot be used","archive-push acknowledges a segment although one of the repositories does not hold it")
mk('p02-repo2','P02',[('src/command/archive/push/push.c',"""                    if (result.pgVersion != archiveInfo.version || result.pgSystemId != archiveInfo.systemId)""",
"""                    if (result.pgVersion != archiveInfo.version || (repoIdx == 0 && result.pgSystemId != archiveInfo.systemId))""")],
"archive-header-check off and a second repository that holds the stanza of another cluster of the same PostgreSQL version","foreign WAL is archived into the stanza of the second repository and the push succeeds")
mk('p16-fork','P16',[('src/command/restore/timeline.c',"historyItem->timeline == timelineBackup && lsnBackup < historyItem->lsn)","historyItem->timeline == timelineBackup && lsnBackup <= historyItem->lsn)")],
"a backup whose LSN is exactly where the target timeline forked off","restore accepts a target timeline that cannot be reached from the backup")
