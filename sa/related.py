"""Statements that overlap: a check also decides these rules of a neighbour, because a violation of the rule breaks its own statement too.

property -> [(neighbour, rules, part of the source (regular expression on the file), the words of the statement that need it)]"""

ALSO = {
    'C01': [('C02', r'C02\.own', '', 'refused operations never switch stacks'),
            ('C03', r'C03\.done', '', 'running -> finished when the runner ended')],
    'C02': [('C01', r'C01\.edge', '', 'a coroutine is entered and left only after the move of its status')],
    'C04': [('C17', r'C17\.buf', '', 'the private buffer of a task covers nothing else'),
            ('C05', r'C05\.create', '', 'a failed creation gives the stack back')],
    'C05': [('C08', r'C08\.(count|order)', '', 'the last reference, and no other, releases the stack')],
    'C12': [('C13', r'C13\.refuse', '', 'a reset leaves no task behind: nothing is added meanwhile')],
    'C14': [('C11', r'C11\.link', '', 'a task with a timeout has a timer until it expires')],
    'C16': [('C15', r'C15\.(edge|end)', '', 'a task is ended by one call only')],
    'C17': [('C04', r'C04\.task', '', 'task and action lie in disjoint places inside the room reserved')],
    'C18': [('C10', r'C10\.', r'promise|future|generator|callable|std_coroutine', 'kill, cancel and start refuse only for a reason')],
    'C19': [('C24', r'C24\.(attach|detach)', '', 'who waits for several is registered with each, and with none when it goes on'),
            ('C23', r'C23\.(wake|alive)', '', 'every caller of a generator is resumed, nothing of the ended coroutine is touched'),
            ('C22', r'C22\.ready', '', 'a coroutine that awaits goes on at once or suspends')],
    'C20': [('C21', r'C21\.(last|alive)', '', 'the owner that goes last ends the coroutine, while its frame is alive')],
    'C21': [('C20', r'C20\.(end|push|one)', r'task', 'the last future ends the coroutine, and no other does')],
    'C22': [('C19', r'C19\.await', '', 'a coroutine that waits suspends exactly if there is something to wait for'),
            ('C23', r'C23\.value', '', 'waiting for a generator gives its value or an error')],
    'C23': [('C22', r'C22\.(value|share|ready)', r'generator', 'who waits for a generator finds its value or the error'),
            ('C19', r'C19\.(add|remove|resume)', '', 'setting a value and ending resume every coroutine that waits')],
    'C24': [('C19', r'C19\.(add|remove)', '', 'who waits is registered with every pending future, and with none at the end')],
    'C27': [('C16', r'C16\.once', '', 'when the task ends, the coroutine goes on once'),
            ('C19', r'C19\.(add|remove|resume)', '', 'the register of waiting coroutines resumes each once')],
}
