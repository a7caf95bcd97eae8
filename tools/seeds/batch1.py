import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk('p19-log-gap','P19',[('src/command/verify/verify.c',"""        if (walRange == NULL ||
            !strEq(
                walSegmentNext(walRange->stop, (size_t)archiveIdResult->pgWalInfo.size),
                walSegment))
""","""        if (walRange == NULL ||
            (!strEq(
                 walSegmentNext(walRange->stop, (size_t)archiveIdResult->pgWalInfo.size),
                 walSegment) &&
             strEq(strSubN(walRange->stop, 0, 16), strSubN(walSegment, 0, 16))))
""")],"a WAL segment missing exactly at a log-file boundary","the gap at the boundary is not reported: the two ranges are merged into one")
mk('p34-push-close','P34',[('src/command/archive/push/file.c',"""            // Close the source and destination files
            ioReadClose(storageReadIo(source));
""","""            // Throw any errors before the files are completed, even if some pushes were successful. It is important that PostgreSQL
            // receives an error so it does not remove the file.
            if (strLstSize(errorList) > 0)
            {
                THROW_FMT(
                    CommandError, CFGCMD_ARCHIVE_PUSH " command encountered error(s):\\n%s", strZ(strLstJoin(errorList, "\\n")));
            }

            // Close the source and destination files
            ioReadClose(storageReadIo(source));
"""),('src/command/archive/push/file.c',"""        // Throw any errors, even if some pushes were successful. It is important that PostgreSQL receives an error so it does not
        // remove the file.
        if (strLstSize(errorList) > 0)
            THROW_FMT""","""        // Throw errors from checking the repos
        if (!destinationCopyAny && strLstSize(errorList) > 0)
            THROW_FMT""")],"an I/O error when the archived file is synced, closed or renamed","archive-push reports success although the segment is not in the archive")
mk('p02-header','P02',[('src/command/archive/push/file.c',"""            if (walInfo.version != pgVersion || walInfo.systemId != pgSystemId)""","""            if (walInfo.systemId != pgSystemId && walInfo.version != pgVersion)""")],"WAL of another cluster of the same PostgreSQL version","foreign WAL is archived into the stanza")
