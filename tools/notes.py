HOOKS = None
NA = {}
_R = 'TLC evaluates the TLA+ specification on every recorded behaviour of the real code (record by record, all records checked); '
NOTES = {
 'C01': ('TLA+ specification of search (spec/Search.tla), TLC conformance of recorded searches of the real code',
         _R + 'inputs are generated (exhaustive over small patterns and texts, random beyond), so the assurance is bounded by them; RE2 semantics are specified independently in TLA+ as a derivative-free matcher over code points.'),
 'C02': ('TLA+ specification of the trigram prefilter obligation (spec/Trigram.tla), TLC conformance of recorded proposals',
         _R + 'pattern/text pairs are generated; pairs whose query trivially includes the file are counted outside TLC, suspicious ones and a sample are decided by TLC.'),
 'C03': ('TLA+ specification of context lines (spec/Search.tla), TLC conformance of recorded searches',
         _R + 'generated files and patterns, context sizes 0..many, long lines and long files.'),
 'C04': ('TLA+ specification of paging and caps (spec/Search.tla), TLC conformance of recorded pages',
         _R + 'every page of generated result sets.'),
 'C05': ('TLA+ specification of path filters and pattern validity (spec/Search.tla), TLC conformance',
         _R + 'generated trees, path filters, and invalid patterns.'),
 'C06': ('TLA+ specification of what indexing does to a tree (spec/Indexing.tla), TLC conformance of recorded builds',
         _R + 'generated trees incl. thresholds, special files, symlinks, unreadable directories, files vanishing during the walk.'),
 'C07': ('TLA+ specification of posting lists (spec/Posting.tla), TLC conformance of recorded indexes',
         _R + 'generated file sets incl. more postings than the memory buffer holds and concurrent builds.'),
 'C08': ('TLA+ specification of merging (spec/Merge.tla), TLC conformance of recorded merges',
         _R + 'generated pairs and chains of indexes.'),
}
_M = ('TLC checks the specification of the daemon\'s life (spec/Hound.tla) exhaustively within small constants; ')
_T = ('TLC-simulated behaviours of it are replayed, under random scheduling delays at every statement, into real searchers with a controllable version '
      'control system, and TLC validates every recorded trace against the specification: the assurance for the code is that of the replayed schedules. ')
_L = 'TLA+ state machine of the daemon\'s life (spec/Hound.tla): TLC model checking, replay of TLC-generated scenarios into the real code, TLC trace validation'
NOTES.update({
 'C09': (_L, _M + _T + 'Scenarios rich in searches overlapping swaps.'),
 'C10': (_L, _M + _T + 'Scenarios rich in failing fetches, builds and deletions. Real system calls on sources, index directories and temporary files are made to fail (ENOSPC, EIO, EMFILE; once or for a while, at every point of a build), and the recorded traces are validated against the same specification.'),
 'C11': (_L, _M + _T + 'Scenarios rich in update requests at every phase.'),
 'C12': (_L, _M + _T + 'Scenarios with up to four repositories and every bound.'),
 'C13': (_L, _M + _T + 'Scenarios with stop requests at every phase.'),
 'C14': (_L, _M + _T + 'Scenarios with several starts over one database directory.'),
 'C15': (_L, _M + _T + 'Scenarios with restarts, failed builds and deletions; the directory listing is part of the trace. Real system calls on sources, index directories and temporary files are made to fail (ENOSPC, EIO, EMFILE; once or for a while, at every point of a build), and the recorded traces are validated against the same specification.'),
 'C16': ('TLA+ state machine of the daemon\'s life with crashes (spec/Hound.tla): TLC model checking, kills of the real process at every change of the database directory, TLC trace validation',
         _M + 'the real process is killed at every system call that changes the database directory (chains of up to several crashes), restarted, searched, and TLC validates the whole history.'),
 'C17': (_L, _M + _T + 'Scenarios in which every subset of repositories fails. Real system calls on sources, index directories and temporary files are made to fail (ENOSPC, EIO, EMFILE; once or for a while, at every point of a build), and the recorded traces are validated against the same specification.'),
})
NOTES.update({
 'C23': ('TLA+ specification of loading a configuration (spec/Config.tla), TLC conformance of recorded loads',
         _R + 'generated configuration files: every option absent, null, zero or given, mixes of global and repository vcs-config, broken files.'),
 'C25': ('TLA+ specification of result blocks (spec/Client.tla), model checked against the match-by-match computation (spec/ClientMC.tla), TLC conformance of recorded output',
         _R + 'every set of matching lines of a 9 line file with every uniform context, random contexts, large line numbers, random results.'),
 'C26': ('TLA+ specification of the client (spec/Client.tla), TLC conformance of recorded runs of the hound program',
         _R + 'generated command lines, configuration files and server answers; output to files and terminals.'),
})
NOTES.update({
 'C20': ('TLA+ specification of the HTTP interface (spec/Api.tla), TLC conformance of recorded exchanges',
         _R + 'generated requests (methods, parameters, repositories, hostile strings) against a real server over real indexes.'),
 'C21': ('TLA+ specification of the HTTP interface (spec/Api.tla), TLC conformance of recorded requests, and of the state the server is left in',
         _R + 'generated hostile requests, concurrent with each other, against a real server; unreadable indexes; update, webhook and excludes endpoints.'),
})
NOTES.update({
 'C18': ('TLA+ specification of a remote, a working copy and what a fetch means (spec/Git.tla): TLC-simulated histories (spec/GitGen.tla) replayed into real git repositories through the real driver, TLC trace validation (spec/GitTrace.tla)',
         'TLC makes up histories of commits, force-pushes, deleted and renamed branches, default branch switches, tags, unreachable remotes and a tampered working copy; each is replayed and the fetched tree, revision and error are validated by TLC: the assurance is that of the replayed histories.'),
 'C22': ('TLA+ specification of non-interference (spec/Disclosure.tla), TLC conformance of recorded answers of two servers that differ in vcs-configs only',
         _R + 'two servers per generated configuration are asked the same requests (pages, API, errors); answers must be equal and what is told must be the public view of the configuration.'),
 'C24': ('TLA+ state machine of readiness and termination (spec/Web.tla): TLC model checking, trace validation of recorded requests across the transition, and of the real daemon',
         'TLC checks the specification (WebMC); requests are raced against the transition of a real server under random scheduling delays at every statement, and against the real houndd started with gated version control; TLC validates each history.'),
 'C28': ('TLA+ specification of the tool calls of a command driven driver (spec/Tool.tla), TLC conformance of recorded calls',
         _R + 'a stand-in for svn, svnversion, hg and bzr records its calls and fails at every chosen step; the real tools are not available here.'),
})
NOTES.update({
 'C19': ('TLA+ specification of a directory and the daemon\'s link to it (spec/Local.tla): TLC-simulated histories (spec/LocalGen.tla) replayed into real directories, through the driver and through a polling searcher, TLC trace validation (spec/LocalTrace.tla)',
         'TLC makes up histories of written, moved, swapped, removed, touched files, links, pipes, a vanishing directory, every form of url, restarts; revisions and the searchable lines are validated by TLC.'),
})
NOTES.update({
 'C27': ('TLA+ specification of git attributes and configured lists (spec/Attributes.tla): TLC-simulated histories (spec/AttributesGen.tla) replayed into real repositories and searchers, TLC trace validation (spec/AttributesTrace.tla)',
         'TLC makes up commits with nested attribute files, configured lists, restarts and updates; every served mark is validated by TLC, whose specification has its own path pattern matcher.'),
})
