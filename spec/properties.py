"""Source of properties.jsonl."""
import json, os
L = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    L.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


P('P01', 'Settings and configurations are only changed by tuning requests in tuning mode',
  '''A request from the tuning interface or from a remote client that creates, deletes, restores, saves, splits,
  imports or edits domains or configurations, or that writes parameter values (by value, by raw bytes or by XML),
  takes effect only while tuning mode is on. When tuning mode is off such a request changes nothing and reports
  failure. (Renaming, application rules, auto-sync, explicit synchronisation, values stored in a given
  configuration and client handles are not gated.)''',
  ['histories', 'inputs'], 'every request, at every point of any history of mode switches, with any arguments',
  '''Tests exercise a few requests outside tuning mode; the guarantee is about every entry point, command and
  argument combination, including those added later.''',
  ['parameter/ParameterMgr.cpp', 'parameter/ParameterMgrFullConnector.cpp'],
  [('tuning gate checked before each mutating request', 'parameter/ParameterMgr.cpp CParameterMgr::checkTuningModeOn')],
  [('tuning flag', 'tuning session in progress', 'parameter/ParameterMgr.h CParameterMgr::_bTuningModeIsOn')],
  ['tuning connector methods', 'remote commands'])
P('P02', 'Tuning mode suspends automatic application and leaving it re-applies everything',
  '''While tuning mode is on, configurations are never applied automatically: an application request from the client
  is ignored until the session ends. Leaving tuning mode force-applies the configurations selected by the current
  criteria, outside tuning mode an application request is always honoured, and tuning mode can be entered only when
  the framework configuration permits tuning. A mode switch that reports success has stored the requested mode.''',
  ['histories', 'configurations'], 'every history of criterion changes, application requests and mode switches',
  'Tests follow a couple of fixed mode-switch sequences.',
  ['parameter/ParameterMgr.cpp'],
  [('mode switch', 'parameter/ParameterMgr.cpp CParameterMgr::setTuningMode'),
   ('application request', 'parameter/ParameterMgr.cpp CParameterMgr::applyConfigurations')],
  [('tuning flag', 'tuning session in progress', 'parameter/ParameterMgr.h CParameterMgr::_bTuningModeIsOn')])
P('P03', 'Every access to the live settings holds their lock, never taken twice',
  '''Once the framework is started, every request of any interface (platform, tuning, remote, element or parameter
  handle) that reads, writes, saves, restores or transmits the live settings does so while holding the one lock that
  protects them. No request acquires that lock a second time while it already holds it.''',
  ['schedules'], 'every interleaving of requests from any number of client threads and the remote server thread',
  'Tests are single threaded; a missing or doubled lock shows only in particular interleavings or call chains.',
  ['parameter/ParameterMgr.cpp', 'parameter/ElementHandle.cpp'],
  [('blackboard mutex', 'parameter/ParameterMgr.h CParameterMgr::getBlackboardMutex')],
  [('live blackboard', 'current value of every parameter', 'parameter/ParameterMgr.h CParameterMgr::_pMainParameterBlackboard')])

P('P04', 'No access to a blackboard ever leaves its storage',
  '''No operation on a blackboard (the live settings or the saved settings of a configuration) reads or writes outside
  its byte storage, in any build type: an access out of range stops the process instead, and a string read never runs
  past the end of the storage. The storage is reachable only through these bounds-checked operations, except for the
  raw location given to subsystem plug-ins.''',
  ['inputs'], 'every offset, size, string content and pair of blackboards, in release and debug builds',
  'Tests use valid offsets; out-of-range ones are undefined behaviour that a passing test does not exclude.',
  ['parameter/ParameterBlackboard.cpp', 'utility/AlwaysAssert.hpp'],
  [('bounds check', 'parameter/ParameterBlackboard.cpp assertValidAccess')],
  [('storage', 'bytes of the settings', 'parameter/ParameterBlackboard.h mBlackboard')])

P('P05', 'Saved settings are addressed relative to their configurable element',
  '''Wherever a parameter value is read from or written to the settings saved in a domain configuration (XML import
  and export of settings, value access by configuration path, dump), each access addresses the position of that
  parameter inside the saved block: its position in the live settings minus that of the configurable element that owns
  the block. Accesses to the live settings address the position of the parameter itself.''',
  ['inputs', 'configurations'], 'every parameter kind, array item, nesting depth and configurable element position',
  '''A wrong base only shows for elements that do not start at offset 0, for array items or nested components; tests
  use small structures.''',
  ['parameter/BaseParameter.cpp', 'parameter/ArrayParameter.cpp', 'parameter/BitParameter.cpp',
   'parameter/AreaConfiguration.cpp', 'parameter/ConfigurableDomains.cpp'],
  [('offset rebasing', 'parameter/ParameterAccessContext.h getBaseOffset')],
  [('saved block', 'settings of one element in one configuration', 'parameter/AreaConfiguration.h _blackboard')])
P('P06', 'Only values of the declared domain are stored',
  '''A value given by a user is converted and stored only if it belongs to the declared domain of its parameter: the
  range of an integer, fixed or floating point type, the members of an enumeration, 0 or 1 for a boolean, the capacity
  of a bit field, the maximum length of a string, the number of items of an array. Text that is not wholly a number of
  the expected kind is refused, not truncated or wrapped. A refused value is not written.''',
  ['inputs'], 'every text, integer or floating point input, in raw and real value space, for every type',
  'Tests sample a few values around some bounds; wrap-around, NaN, narrowing and suffix text are input dependent.',
  ['parameter/IntegerParameterType.h', 'parameter/EnumParameterType.cpp', 'parameter/BitParameterType.cpp',
   'parameter/FixedPointParameterType.cpp', 'parameter/FloatingPointParameterType.cpp', 'parameter/ArrayParameter.cpp',
   'parameter/StringParameter.cpp', 'utility/convert.hpp'],
  [('conversion', 'parameter/ParameterType.h toBlackboard'), ('array bounds', 'parameter/ArrayParameter.cpp setValues')])

P('P07', 'Under auto-sync a live change is transmitted before success is reported',
  '''While auto-sync is on, and always for client handles, a request that successfully changes live settings has
  transmitted the changed elements to their subsystems before it reports success, and a failed transmission makes the
  request fail. While auto-sync is off nothing is transmitted except by the explicit synchronisation request, which is
  accepted only then; auto-sync is turned on only after a successful synchronisation. Values stored in a configuration
  are never transmitted.''',
  ['histories', 'inputs'], 'every write entry point, parameter kind and state of the auto-sync mode',
  '''Tests mostly run without observing hardware access; a missing synchronisation in one of the many write paths is
  invisible to them.''',
  ['parameter/BaseParameter.cpp', 'parameter/ArrayParameter.cpp', 'parameter/ParameterMgr.cpp',
   'parameter/ElementHandle.cpp', 'parameter/ConfigurableElement.cpp', 'parameter/DomainConfiguration.cpp',
   'parameter/ConfigurableDomain.cpp'],
  [('sync of one element', 'parameter/ConfigurableElement.cpp syncToHW'),
   ('auto-sync mode', 'parameter/ParameterMgr.cpp setAutoSync')],
  [('auto-sync flag', 'automatic transmission enabled', 'parameter/ParameterMgr.h _bAutoSyncOn')])
P('P08', 'A failed step is never reported as success',
  '''When a step of an operation reports a failure (its boolean result is false, or the object it had to find is
  missing), the operation that performed the step fails too: up to the connector methods, handles and remote answers,
  no caller turns the failure of a step into a success or loses it. Tolerated by design: settings that fail to load
  when the client accepts that, plug-ins that fail to load when virtual subsystems may replace them, the legacy
  setters that return nothing, and the reading of stored values into an exported document.''',
  ['inputs', 'histories'], 'every call of a function that can fail, on every path',
  'A lost result is visible only when that very step fails, which most tests never provoke.',
  ['parameter/ParameterMgr.cpp', 'parameter/ConfigurableDomains.cpp', 'parameter/ConfigurableDomain.cpp',
   'parameter/ConfigurableElement.cpp', 'parameter/SyncerSet.cpp', 'remote-processor/RemoteProcessorServer.cpp'],
  [('result propagation', 'parameter/ParameterMgr.cpp logResult')])

P('P10', 'Applying restores the first applicable configuration of every domain, in order',
  '''Applying configurations visits every domain. A domain restores the first of its configurations, in declaration
  order, whose application rule matches the criteria (a configuration without rule never applies), when that
  configuration is not the one already last applied or when the application is forced. Sequence-unaware domains are
  restored in a first pass and the elements they changed are transmitted once, after all of them; sequence-aware
  domains follow, each transmitting its elements one by one in their order.''',
  ['histories', 'configurations'], 'every set of domains, rules, criterion states and last applied configurations',
  'Tests use a few domains; ordering between passes and skipped domains depend on the whole configuration.',
  ['parameter/ConfigurableDomains.cpp', 'parameter/ConfigurableDomain.cpp', 'parameter/DomainConfiguration.cpp'],
  [('two passes', 'parameter/ConfigurableDomains.cpp CConfigurableDomains::apply'),
   ('selection', 'parameter/ConfigurableDomain.cpp findApplicableDomainConfiguration'),
   ('one domain', 'parameter/ConfigurableDomain.cpp CConfigurableDomain::apply')],
  [('last applied configuration', 'configuration whose settings are live',
    'parameter/ConfigurableDomain.h _pLastAppliedConfiguration')])
P('P11', 'The association of elements and domains is the same in all its places',
  '''Associating a configurable element with a domain updates together the domains the element lists, the elements the
  domain lists, the syncers of the domain and one saved area in each of its configurations; dissociating undoes all of
  them, and an element already associated is refused. Merging and splitting copy the saved areas before they drop the
  association. A destroyed domain leaves no element attached to it, and domains are destroyed before the elements.''',
  ['histories', 'configurations'], 'every history of association, split, merge, creation, deletion and import',
  'A place left behind (a dangling area, a syncer kept) shows only in a later operation of a longer history.',
  ['parameter/ConfigurableDomain.cpp', 'parameter/DomainConfiguration.cpp', 'parameter/ConfigurableElement.cpp',
   'parameter/ParameterMgr.cpp'],
  [('association', 'parameter/ConfigurableDomain.cpp doAddConfigurableElement'),
   ('dissociation', 'parameter/ConfigurableDomain.cpp doRemoveConfigurableElement')],
  [('elements of a domain', 'association, domain side', 'parameter/ConfigurableDomain.h _configurableElementList'),
   ('domains of an element', 'association, element side', 'parameter/ConfigurableElement.h _configurableDomainList')])
P('P12', 'The record of the last applied configuration is true',
  '''A domain records a configuration as last applied exactly when it restores it, and forgets it when that
  configuration is deleted. Writing a value by configuration path changes the settings saved in that configuration
  and, when it is the last applied one and only then, the live settings too. Reading a value by configuration path
  reads the saved settings and never the live ones.''',
  ['histories'], 'every history of applications, restorations, deletions and value accesses',
  '''A stale record shows only when a deleted or edited configuration is selected again; reads differ from the live
  value only after the live value was tuned.''',
  ['parameter/ConfigurableDomain.cpp', 'parameter/ParameterMgr.cpp'],
  [('record', 'parameter/ConfigurableDomain.cpp CConfigurableDomain::apply'),
   ('access by configuration path', 'parameter/ParameterMgr.cpp accessConfigurationValue')],
  [('last applied configuration', 'configuration whose settings are live',
    'parameter/ConfigurableDomain.h _pLastAppliedConfiguration')])

P('P13', 'Saved settings are filled before use, completely, and not overwritten',
  '''The area saved for an element in a configuration counts as valid only once its whole block was filled (from the live
  settings, another configuration, another area or XML); restoring, saving, validating, splitting and exporting a
  configuration visit every one of its areas, and copy each at the position of its element. A valid area is never
  overwritten while filling invalid ones. Areas created by start-up, import (even one that fails half way),
  a new configuration or a new association are all valid when the operation ends.''',
  ['histories', 'configurations'], 'every history of creation, import, association, save and restore, any set of elements',
  'An unfilled or misplaced area matters only when that configuration is restored later, in a larger setting.',
  ['parameter/AreaConfiguration.cpp', 'parameter/BitwiseAreaConfiguration.cpp', 'parameter/DomainConfiguration.cpp',
   'parameter/ConfigurableDomain.cpp', 'parameter/ConfigurableDomains.cpp', 'parameter/ParameterMgr.cpp'],
  [('validation', 'parameter/AreaConfiguration.cpp validate'),
   ('import', 'parameter/ParameterMgr.cpp importDomainsXml')],
  [('validity', 'the block holds settings', 'parameter/AreaConfiguration.h _bValid')])

P('P14', 'Application rules decide exactly what they say, and bad rules are refused whole',
  '''A criterion rule decides by its verb: Is and IsNot compare the state of the criterion with the value, Includes holds
  when every state of the value is set, Excludes when none is; All holds when every inner rule does, Any when one does,
  and a configuration applies exactly when it has a rule and the rule holds. A rule (text or XML) is accepted only when
  every brace is matched, nothing is left over, there is one root, and each criterion, verb (allowed for the kind of
  the criterion) and word of the value is known. A refused rule leaves the previous one in place.''',
  ['inputs'], 'every rule, criterion state and rule text',
  'The space of rules and states is unbounded; tests use a handful of rules over a few states.',
  ['parameter/SelectionCriterionRule.cpp', 'parameter/CompoundRule.cpp', 'parameter/RuleParser.cpp',
   'parameter/SelectionCriterion.cpp', 'parameter/DomainConfiguration.cpp'],
  [('decision of a criterion rule', 'parameter/SelectionCriterionRule.cpp CSelectionCriterionRule::matches'),
   ('decision of a compound', 'parameter/CompoundRule.cpp CCompoundRule::matches'),
   ('parser', 'parameter/RuleParser.cpp CRuleParser::parse')],
  [('criterion state', 'current state', 'parameter/SelectionCriterion.h _iState')],
  ['setApplicationRule', 'configurations applied'])

P('P15', 'Selection criteria hold the last state set and only consistent value pairs',
  '''After the client sets the state of a criterion, the criterion holds that state, and its count of modifications has
  grown by one exactly when the state changed. Applying configurations resets the counts of all criteria. A value pair is
  accepted only when neither its literal nor its number is already used, and for an inclusive type only when the number
  has a single bit set; looking up a literal or a number returns the other half of the same pair, or fails.''',
  ['inputs', 'histories'], 'every sequence of state changes, applications and value pairs',
  'Wrong lookups or counts show only for particular numbers and histories.',
  ['parameter/SelectionCriterion.cpp', 'parameter/SelectionCriterionType.cpp', 'parameter/SelectionCriteriaDefinition.cpp'],
  [('setter', 'parameter/SelectionCriterion.cpp setCriterionState'),
   ('value pairs', 'parameter/SelectionCriterionType.cpp addValuePair')],
  [('count', 'modifications since the last application', 'parameter/SelectionCriterion.h _uiNbModifications')])

P('P30', 'A bit parameter reads and writes exactly its own bits',
  '''Setting a bit parameter changes only the bits its position and size declare in its block, to the value given, and a
  value above its maximum is refused and changes nothing; reading it returns exactly those bits. A saved setting of a bit
  parameter is saved and restored without touching the neighbouring bits. The structure is refused when a bit parameter
  does not fit in its block or its maximum does not fit in its bits, and only single-bit parameters are accessed as booleans.''',
  ['inputs', 'configurations'], 'every position, size, block content and value',
  'Tests use a few positions and sizes; wrong masks show only for particular neighbours, wide fields or block sizes.',
  ['parameter/BitParameterType.cpp', 'parameter/BitParameter.cpp', 'parameter/BitwiseAreaConfiguration.cpp'],
  [('mask and shift', 'parameter/BitParameterType.cpp toBlackboard, fromBlackboard, merge'),
   ('read modify write', 'parameter/BitParameter.cpp doSet')],
  [('position', 'first bit', 'parameter/BitParameterType.h _bitPos')])


P('P31', 'Every element owns its bytes of the settings and array items their own slots',
  '''The elements of the structure are laid out one after the other without gap or overlap: an element takes the sum of its
  children, a scalar its declared size, an array its item size times its length, a string its maximum length plus one.
  Value k of a list given for an array, starting at an index or at the first item, reads or writes item index + k and nothing
  else, and a list, string or block of raw bytes that does not fit is refused without being written over a neighbour. The live
  settings are sized from the complete structure before they are used.''',
  ['configurations', 'inputs'], 'every structure, array length, item size, index and list',
  'A wrong stride or size shows only for particular neighbours, lengths and start indices.',
  ['parameter/ConfigurableElement.cpp', 'parameter/ArrayParameter.cpp', 'parameter/Parameter.cpp',
   'parameter/StringParameter.cpp', 'parameter/ParameterMgr.cpp'],
  [('layout', 'parameter/ConfigurableElement.cpp setOffset, getFootPrint'),
   ('array stepping', 'parameter/ArrayParameter.cpp setValues, getValues')],
  [('offset', 'first byte of the element', 'parameter/ConfigurableElement.h _offset')])


P('P32', 'Values accepted for a parameter are in its range and read back unchanged',
  '''A value set on a scalar integer, fixed point, floating point, boolean or enumerated parameter, as a number or a text, is
  accepted when the text denotes completely a number (or an enumerator) in the range and size the parameter declares, and
  refused otherwise; a refused value leaves the settings unwritten. The value accepted comes back through the matching getter
  (an enumerator by name and number; fixed and floating points to their precision). The text shown in any value
  space and raw format can be set again and gives the same bytes.''',
  ['inputs'], 'every kind of scalar parameter, range, size, value and text',
  'Ranges, sizes, formats and texts multiply; tests try a few values of a few types.',
  ['parameter/IntegerParameterType.h', 'parameter/BaseIntegerParameterType.cpp', 'parameter/FixedPointParameterType.cpp',
   'parameter/FloatingPointParameterType.cpp', 'parameter/EnumParameterType.cpp', 'parameter/BooleanParameterType.cpp',
   'parameter/Parameter.cpp', 'utility/convert.hpp'],
  [('conversions', 'parameter types toBlackboard and fromBlackboard'),
   ('text to number', 'utility/convert.hpp convertTo'),
   ('accessors', 'parameter/Parameter.cpp doSet, doGet')],
  [('stored word', 'value as stored in the blackboard', 'parameter/ParameterBlackboard.h mBlackboard')],
  ['parameter setters and getters', 'setParameter and getParameter texts'])

P('P26', 'Synchronising reaches every syncer concerned and reports what failed',
  '''Synchronising a set asks each syncer of it, whatever failed before, adds each failure's text to the errors and fails exactly
  when one failed. The set of an element is its own or its nearest ancestor's syncer, else those of all its descendants. A
  subsystem object accesses the hardware exactly when its subsystem is alive, from the first byte of its element, succeeds
  exactly when that access does, and sets its defaults when reading back fails. Applying configurations also transmits every
  subsystem that asked for it, and a start reads back the elements without valid settings.''',
  ['inputs', 'histories'], 'every element tree, syncer outcome and sequence of synchronisations',
  'Which syncers fail, and in which combination, is up to plug-ins; tests have one subsystem and no failing object.',
  ['parameter/SyncerSet.cpp', 'parameter/SubsystemObject.cpp', 'parameter/ConfigurableElement.cpp',
   'parameter/InstanceConfigurableElement.cpp', 'parameter/SystemClass.cpp', 'parameter/HardwareBackSynchronizer.cpp',
   'parameter/ConfigurableElementAggregator.cpp', 'parameter/ParameterMgr.cpp'],
  [('synchronisation of a set', 'parameter/SyncerSet.cpp sync'),
   ('syncers of an element', 'parameter/ConfigurableElement.cpp fillSyncerSet'),
   ('hardware access', 'parameter/SubsystemObject.cpp sync'),
   ('read back at start', 'parameter/ParameterMgr.cpp load')],
  [('position', 'bytes exchanged so far', 'parameter/SubsystemObject.h _accessedIndex')],
  ['plug-in sendToHW and receiveFromHW'])

P('P16', 'Remote commands do exactly what is documented, or refuse and do nothing',
  '''A command whose name is not known, or that has fewer arguments than it requires, is refused with an explanation and
  nothing is done. Every other command performs exactly the documented operation with the words of the request in the
  documented places, never reading a word the request does not have, and is answered with success exactly when the
  operation succeeded. A word outside the documented set of an option shows the usage of the command instead.''',
  ['inputs'], 'every command of the table x every number of arguments x documented and other words',
  'The tests send a few commands with well-formed arguments.',
  ['parameter/ParameterMgr.cpp', 'remote-processor/RemoteCommandHandlerTemplate.h'],
  [('command table and handlers', 'parameter/ParameterMgr.cpp gastRemoteCommandParserItems, *CommandProcess'),
   ('dispatcher', 'remote-processor/RemoteCommandHandlerTemplate.h remoteCommandProcess, parse')],
  [('argument count', 'arguments of the request against the minimum of the row', 'remote-processor/RemoteCommandHandlerTemplate.h _minArgumentCount')])

P('P17', 'Remote messages arrive as they were sent, and malformed ones are refused',
  '''What one side sends as command, arguments, answer and status is what the other side receives, each string whole and in its
  place; packed arguments are the words asked for joined by blanks. A message that is truncated, has a wrong sync word,
  checksum or impossible size, or whose content does not match its size is refused, ends only its connection,
  and is never processed. The server answers every request exactly once with the text and status of its handler.''',
  ['inputs', 'histories'], 'every message content x every outcome of each exchange with the socket x sizes, sync words and checksums received',
  'The tests exchange a few well-formed messages over a reliable local connection.',
  ['remote-processor/Message.cpp', 'remote-processor/RequestMessage.cpp', 'remote-processor/AnswerMessage.cpp',
   'remote-processor/RemoteProcessorServer.cpp', 'remote-processor/BackgroundRemoteProcessorServer.cpp', 'remote-process/main.cpp'],
  [('framing', 'remote-processor/Message.cpp serialize'), ('content', 'remote-processor/RequestMessage.cpp collectReceivedData'),
   ('server', 'remote-processor/RemoteProcessorServer.cpp handleNewConnection')],
  [('position', 'bytes of the content exchanged so far', 'remote-processor/Message.h _uiIndex')])

P('P22', 'Client handles write only rogue parameters of matching shape',
  '''A typed write through a client handle is stored only if the element is a parameter, is rogue (neither it nor any ancestor
  or descendant of it belongs to a domain) and has the shape of the value: an array of exactly the length of the given vector,
  or not an array for a scalar. Otherwise it returns failure with an error text and stores nothing; in tuning mode a valid
  write is skipped and reported as done. XML and byte writes through a handle need a rogue element too. A typed read is answered
  only by a parameter of the same shape, and what is stored or returned is the value of the element the handle was made for.''',
  ['inputs', 'histories'], 'every element, value, vector length and state of the domains',
  'Tests use a structure without domains and vectors of the right length.',
  ['parameter/ElementHandle.cpp', 'parameter/ConfigurableElement.cpp'],
  [('validity of a write', 'parameter/ElementHandle.cpp ElementHandle::checkSetValidity'),
   ('rogue test', 'parameter/ConfigurableElement.cpp CConfigurableElement::isRogue')],
  [('associated domains', 'domains of an element', 'parameter/ConfigurableElement.h _configurableDomainList')],
  ['ElementHandle', 'CParameterHandle'])
P('P09', 'A request that fails says why',
  '''Whenever an operation that has a place for an error text (a string, a list of errors, an access or serialising context,
  the answer of a remote command) reports failure, that text has been written: by the operation itself, or by the inner operation
  whose failure it passes on and to which it gave the same place. A context writes into the string it was made with. (Failures
  that are documented as having no text, and the wording of the texts, are not concerned.)''',
  ['inputs', 'configurations'], 'every failing path of every operation that can report a reason',
  'Tests provoke a few refusals and rarely look at the text; a silent refusal on another path is not noticed.',
  ['parameter/ParameterMgr.cpp', 'parameter/ConfigurableDomains.cpp', 'parameter/ConfigurableElement.cpp', 'utility/ErrorContext.hpp'],
  [('error context', 'utility/ErrorContext.hpp utility::ErrorContext'),
   ('serialising context', 'xmlserializer/XmlSerializingContext.cpp CXmlSerializingContext')], [],
  ['error texts of connectors, handles and remote answers'])

P('P23', 'The C interface follows the life of its handle and reports each outcome',
  '''A C handle refuses everything but a start while it has no started framework, and refuses a second start without being changed;
  a start builds the criteria given (named, of the kind given, value i numbered i or, for inclusive ones, 1 << i), and when the criteria
  or the start fail the handle is as never started. Every call reports the outcome of the operation it stands for, done once, on the
  criterion or parameter asked and with the value given: the text of the last error is empty after a success and not after a failure. Criteria without name or values, repeated, or with more values than bits are
  refused, nothing else is; strings are handed out as copies, log lines reach the callback with its context and their level.''',
  ['histories', 'fault_sequences', 'inputs'], 'every path of every exported function, from both states of the handle',
  'The C binding is tested along a few scripts; a stale text, a handle left half started or a wrongly numbered value appears only in others.',
  ['bindings/c/ParameterFramework.cpp', 'bindings/c/ParameterFramework.h'],
  [('start', 'bindings/c/ParameterFramework.cpp pfwStart'), ('creation of criteria', 'bindings/c/ParameterFramework.cpp PfwHandler_::createCriteria')], [],
  ['exported functions', 'handle states'])

P('P34', 'The connectors pass every request on, unchanged, with its outcome',
  '''A request made through a connector is the request of the same name made of the manager, once, with the arguments given in their places,
  and its outcome and its texts are those of the manager; commands of the native command interface carry every argument in order.
  The policies fixed at start (missing subsystems, failed settings loads, schema validation) are set before the framework is started and refused with a text
  afterwards, and it counts as started exactly when a start has succeeded. A switch read back gives the value last set. A log line
  reaches the logger set last, if any, once, whole, at its level, and a log context takes off the indentation it added.''',
  ['inputs', 'histories'], 'every path of every operation of both connectors, started or not, and of every stage a log line goes through',
  'The connectors are thin and mostly used with one script: two arguments exchanged, an outcome dropped or a policy left open after the start show only for the request concerned.',
  ['parameter/ParameterMgrFullConnector.cpp', 'parameter/ParameterMgrPlatformConnector.cpp', 'parameter/CommandHandlerWrapper.cpp', 'parameter/log/include/log/LogWrapper.h'],
  [('start', 'parameter/ParameterMgrPlatformConnector.cpp CParameterMgrPlatformConnector::start'), ('command interface', 'parameter/CommandHandlerWrapper.cpp CommandHandlerWrapper::process')], [],
  ['operations of the connectors', 'paths'])

P('P35', 'A start goes through its stages in order and keeps to its policies',
  '''A start loads the framework configuration, the plugins, the structure, the settings, initialises, reads back, validates and
  applies everything, then opens the remote interface, in that order, stops at the first stage that fails and succeeds exactly when all did.
  Missing plugins and unknown subsystem types are tolerated, through virtual subsystems, and failed settings loads, without domains, exactly when the policy says so. Every plugin file configured is loaded,
  retried while others can be, and its library kept; the settings are laid out over the structure loaded. The remote server is
  started, on the configured port, exactly when tuning is allowed and the interface not forced off.''',
  ['fault_sequences', 'configurations'], 'every path of every stage, over all outcomes of the stages and library calls it uses',
  'Tests start from well-formed configurations; the failure of a particular stage under a particular policy is reached only by a particular configuration.',
  ['parameter/ParameterMgr.cpp', 'parameter/SystemClass.cpp', 'parameter/DefaultElementLibrary.h', 'parameter/ElementLibrary.cpp'],
  [('load', 'parameter/ParameterMgr.cpp CParameterMgr::load'), ('plugins', 'parameter/SystemClass.cpp CSystemClass::loadSubsystems')], [],
  ['stages', 'paths'])

P('P19', 'A document missing what it needs is refused, and only accepted ones are used',
  '''Reading a document never uses an element it does not have: a configurable domain without its configurations or elements, a subsystem without
  its component library or instances, are refused with an error, as is a document that cannot be read or included. A document whose root is of another type than
  asked for or, when its name is checked, does not bear the name expected is refused. When validation was asked for, one that is invalid or could not be validated
  is refused, and no other; nothing of a refused document is loaded.''',
  ['inputs', 'configurations'], 'every use of a handle on an element of a document on every path, every outcome of the library calls of the admission',
  'Tests and examples are well-formed documents; validation is off by default, so that what a document lacks is found by the code or not at all.',
  ['xmlserializer/XmlDocSource.cpp', 'xmlserializer/XmlDocSink.h', 'parameter/ConfigurableDomain.cpp', 'parameter/Subsystem.cpp', 'parameter/Element.cpp'],
  [('admission', 'xmlserializer/XmlDocSource.cpp CXmlDocSource::populate'), ('domain', 'parameter/ConfigurableDomain.cpp CConfigurableDomain::fromXml'),
   ('subsystem', 'parameter/Subsystem.cpp CSubsystem::structureFromXml')], [],
  ['uses of element handles', 'paths'])

P('P20', 'No exception of the framework comes out of its interfaces',
  '''Whatever a document, a command, a plugin library, a file or a remote client contains or does, a malformed attribute and every other
  error that the framework raises as an exception, or that it gets as one from loading a plugin, writing a file, the network or a thread, is turned
  into a failure of the operation. No such exception leaves the public classes, the C binding, a command handler, the thread of the remote server
  or a destructor, and none is mistaken for success.''',
  ['inputs', 'fault_sequences'], 'every raising site and call path of the whole program, every path through each handler',
  'An exception that no handler is meant for ends the host process; it takes one malformed attribute read outside a handler.',
  ['xmlserializer/XmlElement.cpp', 'xmlserializer/XmlMemoryDocSink.cpp', 'parameter/Element.cpp', 'parameter/ParameterMgr.cpp', 'parameter/SystemClass.cpp',
   'remote-processor/RemoteProcessorServer.cpp', 'remote-processor/BackgroundRemoteProcessorServer.cpp', 'bindings/c/ParameterFramework.cpp'],
  [('attribute', 'xmlserializer/XmlElement.cpp CXmlElement::getAttribute'), ('thread', 'remote-processor/BackgroundRemoteProcessorServer.cpp BackgroundRemoteProcessorServer::start')], [],
  ['entry points', 'raising sites', 'call edges'])

P('P33', 'Mapping keeps to the keys and contexts declared, or the structure is refused',
  '''A mapping key given twice for one element, or set again below an element that sets it, refuses the structure. A subsystem object is created exactly for an
  element bearing the key of one of the creators of its subsystem, one at most, with the value of the key and a context holding what the element and its ancestors set and nothing else, when every
  ancestor key required is set and the element is no larger than the creator allows; otherwise the structure is refused, as is a parameter, string or bit block left without an object.
  Elements below an object get none, siblings do not see each other's keys, and an amendment %n of a mapping value is replaced by the value set for its key.''',
  ['inputs', 'configurations'], 'every mapping, mask of ancestors, size and type of element; every path through the mapping of an element',
  'The tests map a few well-formed structures; conflicts, missing ancestors and oversized elements only come with the structures of integrators.',
  ['parameter/Subsystem.cpp', 'parameter/MappingContext.cpp', 'parameter/MappingData.cpp', 'parameter/InstanceConfigurableElement.cpp',
   'parameter/FormattedSubsystemObject.cpp', 'parameter/TypeElement.cpp'],
  [('creation', 'parameter/Subsystem.cpp CSubsystem::handleSubsystemObjectCreation'), ('context', 'parameter/MappingContext.cpp CMappingContext::setItem'),
   ('walk', 'parameter/InstanceConfigurableElement.cpp CInstanceConfigurableElement::map')], [],
  ['paths', 'iterations', 'obligations'])

P('P18', 'Exported documents hold what was asked, as the schemas and the import want it',
  '''The document exported for domains holds the name of the system and, for each domain, its name, sequence awareness, configurations with their rules and the path of every associated element,
  in the elements, order and attributes that the schemas declare and the import reads. Exactly when settings are asked for it holds, for each configuration, under the path of each element the values of that
  element and no other, in the value space and raw format of the session, marked raw exactly when they are. A request exports what it names to the place it names, and succeeds only when everything was written.''',
  ['inputs', 'configurations'], 'every domain, configuration and element; every path of the composing functions; both directions, value spaces and destinations',
  'The tests export a few domains of the test platform; order, names and value spaces of other systems, and full disks, are not among them.',
  ['parameter/ConfigurableDomain.cpp', 'parameter/DomainConfiguration.cpp', 'parameter/ConfigurableElement.cpp', 'parameter/BaseParameter.cpp', 'parameter/Element.cpp',
   'parameter/ParameterMgr.cpp', 'xmlserializer/XmlElement.cpp', 'xmlserializer/XmlStreamDocSink.cpp', 'schemas/ConfigurableDomain.xsd'],
  [('settings', 'parameter/DomainConfiguration.cpp CDomainConfiguration::composeSettings'), ('domain', 'parameter/ConfigurableDomain.cpp CConfigurableDomain::childrenToXml'),
   ('request', 'parameter/ParameterMgr.cpp CParameterMgr::wrapLegacyXmlExport')], [],
  ['paths', 'trees', 'obligations'])

P('P21', 'Values are shown and taken in the value space and format of the session',
  '''Every request that reads, writes, dumps or exchanges a value as text does so in the value space (real or raw) and with the raw output format (decimal or hexadecimal) last chosen for the session, on the live
  settings or, for a configuration, on those looked up. A session starts with real values and decimal, and these choices change only when asked. A scalar is written in base sixteen, marked 0x and padded with zeros to
  no other width than that of its type, exactly when both the raw value space and the hexadecimal format are in force.''',
  ['inputs', 'histories'], 'every request with a value, every type of scalar and value, every order of choices and accesses',
  'The tests read a few values in a few of the combinations of value space, format, type and kind of access; a choice lost for one of them changes none of those.',
  ['parameter/ParameterMgr.cpp', 'parameter/ParameterAccessContext.cpp', 'parameter/BitParameterType.cpp', 'parameter/BooleanParameterType.cpp', 'parameter/EnumParameterType.cpp',
   'parameter/FixedPointParameterType.cpp', 'parameter/FloatingPointParameterType.cpp'],
  [('access', 'parameter/ParameterMgr.cpp CParameterMgr::accessParameterValue'), ('text', 'parameter/EnumParameterType.cpp CEnumParameterType::fromBlackboard')], [],
  ['paths', 'contexts', 'functions'])

P('P36', 'Domain and configuration requests change what they name, once, or are refused',
  '''A request on a domain or a configuration is made of the one it names, once, with the values it gives, and reports the outcome; naming what does not exist fails and changes nothing. A name already borne by a brother is
  neither created nor taken by renaming; a domain added replaces the one of its name only when asked to; what is deleted leaves its parent and is destroyed once. Looking a child up by its name or kind finds it exactly
  when there is one, and an element's children are those added and not removed, in order.''',
  ['inputs', 'histories'], 'every request, name, order of creations, renamings and deletions, found or not',
  'The tests make each request on a few names of one structure; a request lost for one state of what it names, or one child passed over in one situation, changes none of those.',
  ['parameter/ConfigurableDomains.cpp', 'parameter/ConfigurableDomain.cpp', 'parameter/DomainConfiguration.cpp', 'parameter/ParameterMgr.cpp', 'parameter/Element.cpp'],
  [('domains', 'parameter/ConfigurableDomains.cpp CConfigurableDomains::addDomain'), ('names', 'parameter/Element.cpp CElement::rename')], [],
  ['paths', 'loops', 'functions'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in L:
            f.write(json.dumps(p) + '\n')
    print(len(L), 'properties')
