prop('C10', 'What a connection has acknowledged is durable',
     '''With autocommit on, every create, update or delete that returns has been
     committed: any other connection sees it at its next operation and it is
     there, whole, after the database was closed and opened again. One that
     fails (id exists, capacity, conflict, storage failure) leaves nothing behind,
     neither in this connection nor in the database, not even through a later
     commit, and autocommit stays as it was.''',
     ['histories', 'fault_sequences', 'crash_points'],
     '''every sequence of operations by several connections on one database,
     every operation and every reopening point, failures included''',
     '''Tests use mock transaction managers or one connection and never reopen
     after a failure.''',
     [N + 'container_connection.py', S + 'transaction.py', D + 'containerdb.py'],
     [('create, update, delete', N + 'container_connection.py'),
      ('commit and abort', S + 'transaction.py')])

prop('C11', 'A transaction block is all or nothing',
     '''The operations inside `with connection` become visible and durable
     together when the block ends normally, and not at all if an exception
     leaves it or the final commit fails; the exception is not swallowed.
     Afterwards the connection has no pending changes, shows what is stored and
     works as before. Inside, the connection reads its own writes and no other
     connection sees any of them.''',
     ['histories', 'fault_sequences', 'schedules'],
     '''every sequence of operations inside a block, ended normally, by an
     exception or by a conflict, interleaved with other connections, followed by
     any further use''',
     '''Tests check one block and one exception on one connection; what leaks
     into the next commit is seen only in longer histories.''',
     [N + 'container_connection.py', S + 'transaction.py'],
     [('__enter__, __exit__', N + 'container_connection.py'),
      ('commit and abort', S + 'transaction.py')])

prop('C12', 'Connections are isolated and lose no update',
     '''A connection never reads uncommitted changes of another; until it
     commits, aborts or refreshes it keeps reading one committed state. If two
     connections change the same id from states that did not include the other's
     change, the second commit fails with a conflict and changes nothing, so no
     committed object is ever silently overwritten or lost, and after the abort
     the connection reads the new state and can try again. A connection opened
     at an earlier point reads exactly what was stored then and cannot write.''',
     ['schedules', 'histories'],
     '''every interleaving of operations, commits, aborts and blocks of several
     connections with and without autocommit''',
     '''Isolation is a statement about interleavings; the tests run connections
     one after the other.''',
     [N + 'container_connection.py', S + 'transaction.py', S + 'collection.py'],
     [('one transaction manager per connection', D + 'containerdb.py'),
      ('synchronisation', S + 'transaction.py')])

prop('C13', 'Create, read, update and delete keep their contract',
     '''Create refuses an id that is present with ObjectOverwriteError and
     without a change; update stores the object whether or not the id was there
     and returns the one it replaced, or None; delete returns the objects
     removed, none for an unknown id. Reading one id returns its object, also
     falsy ones, or the default; indexing one id is reading it, indexing several
     answers for each of them in order and fails with KeyError only if none is
     there, and an index that is neither fails. The size and usage figures a connection reports are those of what it
     sees.''',
     ['histories', 'inputs'],
     '''every sequence of operations, ids, values (None, 0, empty text) and lists
     of ids, on all connections''',
     '''Tests use one truthy object per call and rarely read the state after a
     refusal.''',
     [N + 'container_connection.py', S + 'container.py'],
     [('create, read, update, delete', N + 'container_connection.py'),
      ('__getitem__', N + 'container_connection.py')])

prop('C14', 'Without autocommit nothing is stored until commit',
     '''With autocommit off, changes are visible to the connection that made them
     and to no other until commit stores all of them together; abort discards
     them all, and closing without commit too. No operation, refused or not,
     commits or discards pending changes by itself.''',
     ['histories', 'schedules', 'crash_points'],
     '''every sequence of operations, commits and aborts of connections with
     autocommit off, beside others with autocommit on''',
     '''Tests set the flag and count calls on a mock; they never mix refused
     operations and pending changes.''',
     [N + 'container_connection.py', S + 'transaction.py'],
     [('autocommit flag', N + 'container_connection.py'),
      ('commit, abort', S + 'transaction.py')])

prop('C15', 'Opening, creating and closing database files is safe',
     '''Creating or opening a database where one exists keeps every object in it
     and its layout, unless asked to start afresh; opening a missing file makes
     a database, one without a path lives in memory. A file that
     holds something else than a container database is refused, keeps its
     content and is not left locked; a locked file is refused with no harm to
     its owner. What was committed before closing is there after opening again.
     A file opened with read_only, by any number of databases, is read as usual
     and never changed; what would change it, or make it, is refused.
     Databases joined by name share one transaction: a block over several of
     them is stored in all or in none. Every `with database as connection`, in
    any thread and inside others of its kind, has a connection of its own, which
    is closed when that block is left and not before.''',
     ['histories', 'configurations', 'fault_sequences'],
     '''every sequence of create, new, open, load, use and close on several
     paths, handles and joined databases, with and without foreign content''',
     '''Tests open mocked storages once; which content survives depends on the
     sequence of openings and on what was there before.''',
     [D + 'containerdb.py', D + 'containerdb.py'],
     [('create, new, load, verify', D + 'containerdb.py'),
      ('joined databases', D + 'containerdb.py')])

prop('C16', 'Reading from a group of databases answers for all of them',
     '''Reading an id through a group connection finds it in whichever database
     of the group holds it: the object if exactly one does, None if none does,
     CitrineDuplicateIdError if several do, and with `multiple` a dictionary of
     all that do. Every answer is a committed state not older than the last
     refresh, or exactly the one a database was opened at; a database that does
     not answer in the given time makes the read fail instead of being left
     out. Reading changes no database.''',
     ['histories', 'schedules', 'configurations'],
     '''every group of databases, contents, versions committed meanwhile, slow
     databases and ids''',
     '''Tests read from mocks that answer at once; duplicates, timeouts and
     databases that change meanwhile are combinations they do not have.''',
     [N + 'group_connection.py', N + 'group_connection.py'],
     [('read in threads', N + 'group_connection.py'),
      ('open with arguments per database', N + 'group_connection.py')])

prop('C17', 'The older storages keep the same transactions',
     '''A ManagedStorage with its managed connection, and a CitrineConnection on
     a container of mappings, keep objects by id, commit each operation on its
     own unless auto_transaction is off, make blocks all or nothing, isolate
     connections, and leave nothing behind when an operation, a block or a
     commit fails. Adding containers keeps every object readable under its id;
     preparing (`new`) a database makes what it lacks and changes nothing else,
     nor does reading through the database itself. Blocks of a database, nested or of several threads, have
     connections of their own, open until the block is left.''',
     ['histories', 'schedules', 'fault_sequences'],
     '''every sequence of operations, blocks, failures, expansions and temporary
     connections, on any number of mappings or collections''',
     '''Tests check each call on a new storage with a few ids; leaks, lost
     objects after expansion and conflicts need longer histories.''',
     [S + 'storage.py', N + 'connection.py', 'citrine/persistence.py'],
     [('setup and open', S + 'storage.py'),
      ('transactions', N + 'connection.py'),
      ('expand and rehash', 'citrine/persistence.py')])

J = 'jsonld/'
WEB = ('''The design model is explored exhaustively within its bounds; the code
    is bound to it by replaying the model's transitions and random histories and
    by TLC judging every recorded response and state. Trusts TLC and Python's
    own class machinery.''')

prop('C18', 'Contextual properties follow the context of the object they are on',
     '''Getting, setting or deleting a contextual property calls the function
     registered for the context the object is in, or the default one if there is
     none for it, or fails with AttributeError if there is neither. The context
     is that of the innermost `switch_context` block open on that object: blocks
     nest, ending one (normally or by an exception, which is not swallowed)
     restores the one before, and no other object is affected. `getter`,
     `setter` and `deleter` give a new property and leave the old one as it was;
     the `_context` decorators extend the property they are called on.''',
     ['histories', 'inputs'],
     '''every sequence of definitions, extensions, opened and closed contexts
     and accesses on several objects and properties''',
     '''Tests look at one property and one context at a time; leaks between
     properties, objects or nested blocks need histories.''',
     [J + 'base.py'],
     [('ContextualProperty', J + 'base.py'),
      ('JsonContextAwareManager, switch_context', J + 'base.py')], note=WEB)

prop('C19', 'Packages and engines are isolated, and combine as documented',
     '''A package works on copies of its classes: whatever is linked, combined or
     read with it never changes the original classes, another package or another
     engine. Every property the mapping links to a class is a property of that
     class and of all that inherit from it, inheritance between the classes is
     kept, a mapping that names something absent is refused, and so is changing
     the namespace, classes or properties of a package. Adding packages
     gives the classes, properties and links of both, the second winning where
     both define a name; subtracting leaves what the other does not define. An
     engine reads exactly the types of its packages, later packages over earlier
     ones; packages and engines can be added to it and taken away again, which
     gives a new engine. An object of an original class that reaches an object
     of a package becomes one of that package's and keeps what it holds.''',
     ['histories', 'inputs'],
     '''every set of classes, inheritance and properties, and every sequence of
     packages and engines made from them''',
     '''Tests use one small world and check single combinations; they never
     check what is left of the packages and classes that went in.''',
     [J + 'package.py', J + 'kamino.py', J + 'engine/jsonld_engine.py',
      J + 'engine/json_input.py'],
     [('copies of classes', J + 'kamino.py'),
      ('links, sums, differences', J + 'package.py'),
      ('class registry', J + 'engine/jsonld_engine.py')], note=WEB)

prop('C20', 'An object as a dictionary or JSON text shows exactly what it holds',
     '''`data`, `json` and `str` of an object show every property that has a value
     and no other (unless `include_none`), under its name or the one given by
     `rename`, limited to `include`, without `exclude`, and without values in
     `reject_values`, changed by the function that `transforms` (or the class)
     gives for it; names differing by the leading "a" of JSON-LD keywords come
     out as keywords. Values come out as they are: booleans, numbers, text,
     nested objects (in full, by the same rules of their own), lists and
     dictionaries of any depth; values JSON has no form for come out as text.
     Properties with a JSON form show that form. Reading an object in any of
     these ways, by index or by iteration, changes nothing, and minified text
     only differs in white space.''',
     ['histories', 'inputs', 'configurations'],
     '''every class hierarchy, every nesting of values, and every combination of
     the parameters''',
     '''Tests print one or two objects with one parameter each; nesting,
     falsy values and combinations of parameters are unlimited.''',
     [J + 'base.py', J + 'utils.py'],
     [('data, json', J + 'base.py'), ('encoder', J + 'utils.py')], note=WEB)

A = 'activitystreams/'
prop('C21', 'Documents become the objects they describe, and objects the same documents',
     '''Reading a document gives an object of the type it states, in any of the
     ways JSON-LD has to state it, which holds every property of the type that the
     document gives, nested objects, lists and references included, and nothing
     else; the document stays as it was and nothing but contexts is requested. An
     unknown or missing type, or an unacceptable value anywhere in a document, is
     refused with ValueError. Writing an object and reading the result gives the
     same object again, with links reduced to where they lead, moments to the
     same instant and counts of collections right. Making an object of any type
     with values gives the same as reading them. Iterating a collection gives its
     members in order.''',
     ['inputs', 'histories'],
     '''every document and object of the ActivityStreams vocabulary: all types and
     properties, all kinds of values, any nesting''',
     '''Tests read a handful of documents; a property lost on one type, in one
     spelling or at one depth of nesting is not seen.''',
     [A + 'models.py', A + 'properties.py', A + 'package.py',
      J + 'engine/json_input.py', J + 'tools/datetime.py', J + 'jsonld.py'],
     [('from_json', J + 'engine/json_input.py'),
      ('types', A + 'models.py'), ('moments', J + 'tools/datetime.py')],
     note=WEB)

prop('C22', 'Every property accepts exactly the values of its range',
     '''Setting a property of the vocabulary to a value of its range (a type of
     object, text, number, moment, period or list as the vocabulary says) keeps
     that value; text or a dictionary that is a web or account reference becomes
     a link where links are allowed; any other value, also one inside a list,
     raises ValueError and leaves the property and all others as they were.
     Objects of the original classes become objects of the package. A reference
     is valid if it is an http(s) URL (https only if secure) whose host has
     nothing but letters, digits and -_.: or an account or mail address; the
     checks answer yes or no for any text. The rule tool behind the setters
     accepts exactly the values of its types, every member of a list too, that
     satisfy each further check it was given.''',
     ['inputs', 'histories'],
     '''every property on every type that has it, every kind of value, and every
     text as reference''',
     '''Tests set a few properties to one good and one bad value each; there
     are about two thousand pairs of types and properties.''',
     [A + 'properties.py', A + 'package.py', A + 'models.py',
      J + 'tools/type.py', J + 'tools/url.py', J + 'tools/number.py',
      J + 'tools/datetime.py'],
     [('setters', A + 'properties.py'), ('SetterValidator', J + 'tools/type.py'),
      ('links from text', 'Link.from_str in ' + A + 'models.py')], note=WEB)

prop('C23', 'A link is followed when it is evaluated, and only then',
     '''Evaluating a property that holds a link to a document gives the object
     that is served there at that moment, of its own type and with links of its
     own that can be followed on; if nothing is served, or no object can be made
     of it, the link itself. Evaluating requests nothing but the place the link
     leads to, and changes neither the object nor the link, so that it is
     followed anew the next time and written as its reference. Links inside
     lists, kinds of links other than Link, and links that lead nowhere stay as
     they are. Reading, writing, making and setting request nothing.''',
     ['histories', 'inputs', 'fault_sequences'],
     '''every sequence of evaluations, changes of objects, and changes of what
     the web serves: documents that come, change, go, are broken, or lead on''',
     '''Tests follow one link to one fixed answer.''',
     [A + 'models.py', A + 'properties.py', J + 'utils.py'],
     [('Link.get, expand, href_only', A + 'models.py')], note=WEB)

prop('C27', 'A container can be resized and condensed while it is in use',
     '''While a container is resized or condensed, step by step or at once,
     with or without moving objects, by one or several maintainers, everybody
     else can go on using it: what can be read changes only by what users commit,
     nothing committed is lost, nothing deleted comes back, nothing old shows up
     again, and the answers of every transaction are those of the version it
     began with. Transactions that would undo any of that, of users or of the
     maintenance, fail with a conflict and change nothing; without another
     commit none fails. A resize adds one group of the wanted size in front and
     is refused if there is more than fits; groups leave the container only if
     they are to be moved and are empty then; what ends well is complete.''',
     ['schedules', 'histories'],
     '''every interleaving of the transactions of users and of any number of
     resizes and condenses, containers of any groups''',
     '''Tests resize containers nobody else uses; losing an object takes a
     commit between two certain steps.''',
     [S + 'container.py', S + 'group.py', S + 'collection.py'],
     [('resize, condense, __merge, write, delete', S + 'container.py'),
      ('read_current', S + 'collection.py')])

prop('C28', 'Clients of a server share its containers safely',
     '''ContainerClient.connect gives the container in the storage of that name on
     the server, with all that is in it. If there is none, one is made, strict if
     that was asked for; with create_missing_container off, connecting is refused
     and nothing is made. A client connected with read_only reads but changes
     nothing. Each client's operations and transactions act on the container as
     those of several connections of one database: what is acknowledged is in the
     server's storage, what failed (a conflict, a lost connection) left nothing
     there, blocks are all or nothing, no update is lost, and with server_sync a
     transaction sees all that was committed before it began; without it, no
     client goes back in time. Clients survive a restart of the server. Without
     a server connecting fails within wait_timeout. A connect that fails leaves
     no network connection and no name among the joined databases; closing a
     client ends its connection. create is not offered to clients.''',
     ['histories', 'schedules', 'fault_sequences'],
     '''any number of clients and storages, any order of connecting, using,
     leaving, stopping and restarting the server, any contents''',
     '''No test uses a client; it takes a server, several clients and its loss at
     certain moments.''',
     ['citrine/client/container_client.py', 'citrine/database/containerdb.py',
      'citrine/connection/container_connection.py'],
     [('ContainerClient.connect', 'citrine/client/container_client.py'),
      ('ContainerDb.load', 'citrine/database/containerdb.py')])

prop('C24', 'Loading a document gives what the web serves, or an error',
     '''Loading a url gives the document served there with its content type, the
     url it came from (or the alternate JSON-LD version the answer names) and the
     context the answer links to. A url that is not http(s) with a proper host,
     or not https for a secure loader, is never requested. If nothing answers, an
     error is reported, the answer is no JSON, or names several contexts,
     JsonLdError is raised. The caching loader requests each url until it has
     succeeded once and then gives that document again; failures are not kept.
     Requests carry the accepted types, or the headers that were given.''',
     ['inputs', 'histories', 'fault_sequences'],
     '''every sequence of loads by any loaders, every url and every answer, as
     what is served changes and fails''',
     '''No test covers the loaders; they use the network.''',
     [J + 'docloader.py', J + 'utils.py'],
     [('get, __call__', J + 'docloader.py'), ('jsonld_get', J + 'utils.py')],
     note=WEB)

prop('C26', 'A group of database modules is what its directories hold',
     '''Creating a module makes a directory with an openable database, refused if
     the name is taken unless it is to be overwritten; another group finds it, with
     every object written to it. Destroying a module, by name or by any spelling of
     its path, removes exactly the module's own files, and the directory if nothing
     else is in it (or all, if asked); no other directory and no file of others is
     touched, and the name is free again. Only directories that are modules are
     found. The sizes of a group and its modules count the objects stored. The
     registry keeps what was noted until it is forgotten.''',
     ['histories', 'inputs'],
     '''every history of creating, destroying, finding, opening and using modules by
     several groups over the same directories, and what others put there''',
     '''The repository has no test for groups of modules.''',
     ['citrine/cluster_tools/dbmodule/dbmodule.py',
      'citrine/cluster_tools/dbmodule/dbgroup.py',
      'citrine/cluster_tools/dbmodule/consts.py',
      'citrine/cluster_tools/clusterdb/container.py'],
     [('create_dbmodule, delete_dbmodule, find_dbmodules, DbModule',
       'citrine/cluster_tools/dbmodule/dbmodule.py'),
      ('DbGroup', 'citrine/cluster_tools/dbmodule/dbgroup.py'),
      ('ClusterRegistryContainer', 'citrine/cluster_tools/clusterdb/container.py')])
