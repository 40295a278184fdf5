#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=None)))

p('C01', 'Applying a partial move conserves chequers and its inverse restores the board',
  "Applying any partial move to a board changes only the chequer counts the move names: one fewer at its source, one more at its destination (none when bearing off), and, when it hits, the opponent's blot moves to the opponent's bar. Every other board field is left alone, no side gains or loses chequers except by bearing off, and applying the inverse move afterwards restores the position exactly. It holds for whichever player is on turn.",
  ['inputs'], 'every position of either side, every source, destination (bar, points, off), hit flag and player on turn',
  'tests apply a handful of opening moves; the claim is over every position, every pair of points and both players.',
  ['bglib/model/boardeditor.py', 'bglib/model/move.py'],
  [('BoardEditor.make_partial_move / make', 'bglib/model/boardeditor.py'), ('PartialMove.is_undo', 'bglib/model/move.py')],
  [('position', 'pair of 25-tuples (you, him), index 24 is the bar', 'bglib/model/board.py')],
  ['BoardEditor.position after make_partial_move'])

p('C02', 'A move proposed from a source point is a legal backgammon move',
  "When asked to move one chequer from a given point, the move generator returns only moves that are legal backgammon moves for the player on turn: an available die, the bar entered first, a landing point not held by two or more opposing chequers, a hit flagged exactly when a single opposing chequer is there, and bearing off only under the bear-off rules. Whenever some available die gives such a legal move it returns one (of the highest such die), and otherwise it reports a falsy error. The question never alters the board or the dice.",
  ['inputs'], 'every position, every source point, every set of remaining dice, either player on turn',
  'the 35 move tests fix concrete boards; legality must hold for every distribution of chequers and every dice remainder.',
  ['bglib/model/move.py', 'bglib/model/board.py'],
  [('MoveFactory.guess_your_single_pm_from_source', 'bglib/model/move.py'), ('AbstractBoard.is_open_to_land / has_chequer_to_move / is_hitting_to_land / is_ok_to_bearoff_from', 'bglib/model/board.py')],
  observe=['returned PartialMove', 'board and AvailableToPlay after the call'])

p('C03', 'A move proposed onto a destination is a legal backgammon move',
  "When asked for one chequer that can reach a given point (or be borne off), the move generator returns only legal moves: an available die, a chequer of the player on turn standing exactly that far away (entering from the bar first), an unblocked landing point, an exact hit flag, and bearing off only under the bear-off rules. Whenever some available die gives such a legal move it returns one, and otherwise it reports a falsy error rather than failing.",
  ['inputs'], 'every position, every destination, every set of remaining dice, either player on turn',
  'tests ask for a few destinations on opening boards; the edge cases (far home, bar entry, ace point) are only reachable with particular positions.',
  ['bglib/model/move.py', 'bglib/model/board.py'],
  [('MoveFactory.guess_your_single_pm_from_dest', 'bglib/model/move.py'), ('AbstractBoard.find_src_of_bearoff_with', 'bglib/model/board.py')],
  observe=['returned PartialMove', 'board after the call'])

p('C04', 'A multi-dice move proposal is legal, reaches its target and only asks',
  "When asked to take a chequer from one point to another with several dice, the generator returns a sequence of legal single moves, each starting where the previous ended, that begins at the source, ends at the destination and uses no more of each die than remains. Asking leaves the position as it was, whether the answer is a move or a refusal. The same holds for asking which played moves to take back: the answer is a chain of inverses of moves really played that joins the two points, and asking does not change the position.",
  ['inputs', 'histories'], 'every position, source, destination, dice remainder; every short history of played moves',
  'tests cover a few two-dice moves; leaving the board untouched after a failed deep search and not reusing a die need all positions.',
  ['bglib/model/move.py'],
  [('MoveFactory.guess_your_multiple_pms', 'bglib/model/move.py'), ('MoveFactory.guess_your_multiple_partial_undoes', 'bglib/model/move.py')],
  observe=['returned Move', 'board.position after the call'])

p('C05', 'Dice used plus dice left always equals the roll, and undo gives dice back',
  "At every moment of a turn the dice consumed by the moves currently kept plus the dice still available are exactly the dice rolled (four of a kind for doubles). Playing a move consumes exactly its die, and taking it back returns exactly that die, removes that move from the kept list and restores the position; playing a die that is not available is refused. The position always equals the starting position with the kept moves applied.",
  ['histories'], 'every roll and every sequence of up to a few moves and take-backs, over every starting position',
  'a turn is a history: tests play one or two moves from one board; accounting must hold after any interleaving of plays and take-backs.',
  ['bglib/model/move.py', 'bglib/model/boardeditor.py'],
  [('AvailableToPlay.consume/add', 'bglib/model/move.py'), ('Move.append cancellation', 'bglib/model/move.py'), ('MoveFactory.append/add', 'bglib/model/move.py')],
  [('_imp', 'die -> remaining count', 'bglib/model/move.py'), ('_pms', 'kept partial moves', 'bglib/model/move.py')],
  ['MoveFactory.available', 'MoveFactory.move', 'MoveFactory.board'])

p('C06', 'Dice may be picked up only when no single legal move is left',
  "A player may end the turn when all dice are used, and may not while a remaining die still gives any chequer (one on the bar first) a legal move. When the player has moved nothing and no rolled die gives a legal move (a dance), ending the turn is allowed. Asking whether the dice may be picked up never changes the position, and picking them up passes the turn to the opponent with no dice rolled.",
  ['inputs', 'histories'], 'every position, every roll, every dice remainder after the moves already kept',
  'tests check about ten concrete boards; a legal move that is overlooked needs a specific position and roll.',
  ['bglib/model/move.py', 'bglib/model/boardeditor.py'],
  [('MoveFactory.is_leagal_to_pickup_dice / pickupdice', 'bglib/model/move.py'), ('BoardEditor.pickupdice', 'bglib/model/boardeditor.py')],
  observe=['MoveFactory.is_leagal_to_pickup_dice()', 'board after the call'])

p('C07', 'The rules treat the two players symmetrically',
  "Swapping the players of a board (positions, scores, cube owner, player on turn) twice gives the original board back. Every rule question, such as who may roll, move, double, take, resign, or whether a point is open, being hit or free to bear off from, has the same answer on the swapped board once the players named in the question are swapped too.",
  ['inputs'], 'every board: positions, scores, match length, cube value and owner, turn, doubled flag, resignation offer, dice, Crawford flag',
  'the code has separate branches for each player; tests exercise them with different data so a disagreement between branches is invisible.',
  ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
  [('BoardEditor.flip', 'bglib/model/boardeditor.py'), ('AbstractBoard.is_leagal_to_* and point predicates', 'bglib/model/board.py')],
  observe=['return values on a board and its flip'])

p('C08', 'Cube and resignation offers move the game and award points exactly by the rules',
  "Only the player on turn, with no offer pending, may roll or double (both before rolling) or offer to resign; a double is refused in the Crawford game, while one is pending, and when the doubling player cannot profit in the match; only the opponent of a doubler or resigner may answer. Declining a double ends the game and gives the doubler the cube's current value, accepting a resignation gives the opponent the offered multiple of it, and the loser's score never changes. Taking a double or rejecting a resignation hands the decision back with the scores untouched.",
  ['inputs', 'histories'], 'every score, match length, cube value, player and sequence of offer and answer',
  'tests check isolated transitions with small constant scores; exact points for every cube value, multiple and player need all values.',
  ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
  [('is_leagal_to_roll/double/redouble/resign, is_cube_take_or_pass, is_to_accept_resign', 'bglib/model/board.py'), ('double/take/drop/offer_resign/accept_resign/reject_resign', 'bglib/model/boardeditor.py')],
  observe=['score, game_state, on_inner_action, doubled, resign_offer'])

p('C09', 'Boards are immutable values compared field by field',
  "A board takes exactly the fields it is given and standard values for the rest, cannot be changed afterwards, and two boards are equal exactly when all their fields are, inequality being the negation; equal boards hash alike. An editor made from a board and frozen again gives an equal board; editing the editor afterwards never changes a board already made, and a change to one field of the editor changes only that field.",
  ['inputs'], 'every value of every board field, every field changed',
  'tests compare a few boards differing in one field; a field left out of comparison or copied by reference needs every field and value.',
  ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
  [('AbstractBoard.__eq__/__ne__', 'bglib/model/board.py'), ('Board.__new__/__setattr__', 'bglib/model/board.py'), ('BoardEditor.__init__/freeze/__setattr__', 'bglib/model/boardeditor.py')],
  observe=['Board equality, attributes'])

p('C10', 'Point notation and point numbers convert back and forth without loss',
  "Writing a board location (a point from either player's view, the bar or off) as text and reading it back gives the same location, for both players, and different locations of a player have different texts. A point number seen by one player is 25 minus the number seen by the other. Texts and numbers outside the board are refused with a value error, never mapped to some other point.",
  ['inputs'], 'every location number and every numeric text, both players',
  'tests sample; out-of-range values on both ends and each player need every integer.',
  ['bglib/model/util.py'],
  [('position_pton/position_ntop/move_ntop/move_pton/flip_point/get_opp', 'bglib/model/util.py')],
  observe=['return values, ValueError'])

p('C11', 'GNU position IDs are 14 characters and identify the position exactly',
  "Every backgammon position (two sides of at most 15 chequers each on 24 points and the bar) has a GNU Backgammon position ID of exactly 14 base64 characters, and decoding the ID gives that same position back. The ID is the published bit layout: each point as that many ones then a zero, the first side's 25 counts then the second's, least significant bit first. Encoding never fails or changes length for any legal number of chequers.",
  ['inputs'], 'every pair of sides with at most 15 chequers each',
  'the tests use about thirty IDs and need a missing library; the length error shows only for particular chequer totals.',
  ['bglib/encoding/gnubgid.py'],
  [('seq2bytes/byts2seq/ByteContext', 'bglib/encoding/gnubgid.py'), ('encode_position/decode_position', 'bglib/encoding/gnubgid.py')],
  observe=['ID string', 'decoded tuples'])

p('C12', 'GNU match IDs carry every match field and decode to what was encoded',
  "Encoding a board's match state gives a 12-character GNU match ID whose bit fields are the published ones (cube log, owner, turn, Crawford, game state, decision, doubled, resignation, dice, match length, scores), and decoding a position ID and match ID pair gives back each of these fields and the position with its encoded value, whichever player is on turn (the position ID lists the side not on turn first). Each field is independent: changing one changes no other.",
  ['inputs'], 'every value of every field within its bit width',
  'tests check a few IDs; overlapping or mis-ordered bit fields need all values of all fields at once.',
  ['bglib/encoding/gnubgid.py'],
  [('MatchProxy.index and validators', 'bglib/encoding/gnubgid.py'), ('encode/decode', 'bglib/encoding/gnubgid.py')],
  observe=['match ID string', 'decoded board fields'])

p('C13', 'Malformed position and match strings are refused, never silently accepted',
  "Decoding an arbitrary string as an XGID or as a position ID always finishes, and either returns a complete decoded value or raises one of the documented decoding errors (for position IDs also the base64 TypeError), never some unrelated failure. A wrong number of XGID fields, a position of the wrong length, non-numeric numbers, an unknown owner, turn, flag or roll length, and a negative match length are all refused.",
  ['inputs'], 'every string of each field up to a bounded length',
  'tests try a few bad strings; robustness must hold for every byte string.',
  ['bglib/encoding/xgid.py', 'bglib/encoding/gnubgid.py', 'bglib/encoding/__init__.py'],
  [('xgid.decode error branches', 'bglib/encoding/xgid.py'), ('decode_position padding loop', 'bglib/encoding/gnubgid.py')],
  observe=['exception type'])

p('C14', 'A well-formed XGID decodes to the board it describes',
  "For every well-formed XGID the decoded board has each side's chequers on the points the 26 letters name (upper and lower case for the two sides, each side's bar at its own end), and the cube value, cube owner, turn, dice, scores, Crawford flag and match length of the corresponding fields. A money game never has the Crawford flag set. The two sides' letters and points are never mixed up.",
  ['inputs'], 'every letter at each of the 26 positions, every value of the other fields',
  'tests decode a few dozen XGIDs; each letter at each point is a separate case.',
  ['bglib/encoding/xgid.py'],
  [('decode_position', 'bglib/encoding/xgid.py'), ('decode', 'bglib/encoding/xgid.py')],
  observe=['BoardEditor fields after decode'])

p('C15', 'The database byte form of a board round-trips and its distance is exact',
  "Storing a board as database bytes and turning it back gives an equal board, for either player on turn and every field value; the position is exactly 26 bytes, one signed count per location from the view of the player on turn. The distance between two stored positions is zero exactly when they are equal, the same in both directions, and equal to the sum of squared per-location differences.",
  ['inputs'], 'every physically possible position and every field value',
  'tests convert a few positions; sign handling at every count and location needs all values.',
  ['bglib/encoding/dbbyte.py'],
  [('signedord/signedchr', 'bglib/encoding/dbbyte.py'), ('encode_position/decode_position/distance', 'bglib/encoding/dbbyte.py'), ('DatabaseBytesExpression', 'bglib/encoding/dbbyte.py')],
  observe=['bytes, tomodel()'])

p('C16', 'A FIBS board line decodes to the board FIBS describes',
  "For every well-formed FIBS board line, decoding gives each side's chequers at the points the line states, for either colour and either direction of play, so that mirrored descriptions of one position decode alike. Turn, dice of the player on turn, cube value and owner, Crawford state, doubled flag, match length and scores are those of the line, whichever player is on turn (with nobody on turn the game is over), and nothing from an earlier decode into the same board survives.",
  ['inputs', 'histories'], 'every chequer count at each location, both colours, both directions, both turns, every cube and dice value',
  'tests decode one line for one colour and turn; the opponent-to-move branch is never executed.',
  ['bglib/encoding/FIBS.py'],
  [('_FIBSBoardState.position', 'bglib/encoding/FIBS.py'), ('decode', 'bglib/encoding/FIBS.py')],
  observe=['BoardEditor fields after decode'])

p('C17', 'Bear-off database indexes identify positions uniquely',
  "Numbering bear-off positions gives every one-sided position of up to the stated number of chequers on the home points a distinct index, the indexes fill a gap-free range starting at zero, and turning an index back into a position gives the position it came from. The points and chequers chosen to index a pair of sides are the least that cover both. Reading a record fetches the bytes at exactly the record's own offset, whole, or fails with an index error when the file is too short.",
  ['inputs'], 'every home-board distribution within the bound; every index; every short read pattern',
  'tests check a few dozen entries of tables; uniqueness is a statement about all pairs.',
  ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/gnubgdb.py'],
  [('oneside_upto6_t2k/k2t', 'bglib/encoding/bearoff/nori.py'), ('oneside_index', 'bglib/encoding/bearoff/gnubgdb.py'), ('DBReader.rawread', 'bglib/encoding/bearoff/__init__.py')],
  observe=['index values, record bytes'])

p('C18', 'Rating changes are zero-sum shares of the match length',
  "For any two ratings and any match length, the winning chances of the two players lie between 0 and 1 and add up to 1, the higher rated player's chance is at least one half, equal ratings give exactly one half, and what the winner gains is between 0 and the match length. What each would gain by winning adds up to the match length, and beating a higher rated opponent never gains less than beating a lower rated one.",
  ['inputs'], 'every pair of real ratings and every positive match length',
  'tests evaluate a few rating pairs; the identities must hold for all reals.',
  ['bglib/stat/rating.py'],
  [('upset_chance/winning_chance/gain_on_win', 'bglib/stat/rating.py')],
  observe=['return values'])

p('C19', 'Each knockout round loses exactly one life per match and no player',
  "In every round of a lives tournament each player plays at most one match, exactly half of the players (rounded down) lose exactly one life and nobody else's lives change. Every player is afterwards either alive with lives left or dead with none, nobody is lost or duplicated, and the dead never play again. A match is won by the draw of chance compared with the rating-based winning chance of the first player, whichever is the higher rated.",
  ['inputs', 'histories'], 'every pairing order and every sequence of random draws, for a bounded number of players and rounds with any lives and ratings',
  'the outcome is random; tests see one seed. Conservation must hold for every shuffle and every draw.',
  ['bglib/stat/tourney.py'],
  [('Tourney.round', 'bglib/stat/tourney.py'), ('Player', 'bglib/stat/tourney.py')],
  [('alive/dead', 'players by key', 'bglib/stat/tourney.py')],
  ['Tourney.alive, Tourney.dead, Player.lives'])

p('C20', 'FIBS lines are classified soundly and login phases follow the protocol',
  "Every server line gets a classification: a named message only if one of that message's patterns matches the line in the current phase, and the phase's default only if none does; of the kinds that match, the one seen most recently is preferred, and with no earlier line to prefer, the classification does not depend on the session's past. The session moves from login to message-of-the-day to running only on the two message-of-the-day markers and back to login only on the goodbye line; classifying never fails and preferring recent messages never loses or invents a message kind.",
  ['inputs', 'histories'], 'every combination of which patterns match the line, every preference order left by earlier lines, every phase',
  'tests classify one line; soundness is over every subset of the 200 patterns that may match and every history.',
  ['bglib/protocol/fibs.py'],
  [('State.make_cookie/candidates/bring_to_top', 'bglib/protocol/fibs.py'), ('RunState.make_cookie', 'bglib/protocol/fibs.py'), ('next_state', 'bglib/protocol/fibs.py')],
  [('last_match', 'recently matched names, most recent first', 'bglib/protocol/fibs.py')],
  ['CookieMonster.make_cookie result and state'])

p('C21', 'Session events reach every subscriber once, in order, and locks are released',
  "An event is delivered exactly once to each registered subscriber that handles it, in registration order, to none that is unregistered, and events arriving after closing was requested go to nobody. Whatever a handler or a guarded operation does, returning or raising, the session lock is released as often as it was taken and the result or exception is passed on unchanged.",
  ['inputs', 'fault_sequences'], 'every choice of which subscribers handle the event and which handlers raise, and every order of register, unregister, dispatch and close within the bound',
  'the session test needs a live server process and is not even runnable here; failures inside handlers are never tested.',
  ['bglib/protocol/session.py'],
  [('synchronized_with', 'bglib/protocol/session.py'), ('Session._dispatch/register/unregister', 'bglib/protocol/session.py')],
  observe=['calls on subscribers, lock acquire/release counts'])

p('C22', 'A Snowie match record is accepted exactly when its lines are in order',
  "A match record is accepted only if its lines follow the record grammar: match length first, then games made of a game header, a player header and moves numbered from one without gap, games separated by blank lines; any other order, number or unknown line is refused with a value error (result lines may stand anywhere). The digest returned covers exactly the lines fed, records longer than the size limit are refused, and splitting a record into games loses and reorders no line.",
  ['inputs', 'histories'], 'every sequence of up to a bounded number of lines of every kind with any move number',
  'tests use 160 real records, and need a missing library; acceptance is a language over all line sequences.',
  ['bglib/record/snowietxt.py'],
  [('ACCEPTABLES/statevalidate', 'bglib/record/snowietxt.py'), ('LineValidator', 'bglib/record/snowietxt.py'), ('Validator/chop', 'bglib/record/snowietxt.py')],
  [('state/count', 'last line kind and next move number', 'bglib/record/snowietxt.py')],
  ['ValueError, digest, chop output'])

p('C23', 'HTML escaping leaves no markup and loses no text',
  "Escaping any text gives text with no angle brackets and with ampersands only as the start of the entities escaping itself produces, from which the original text is recovered exactly by undoing those entities. Text without the special characters comes back unchanged, and escaping works character by character: the escape of a concatenation is the concatenation of the escapes.",
  ['inputs'], 'every text up to a bounded length over every character',
  'tests escape three strings; the claim is over all strings.',
  ['bglib/doc/html.py'],
  [('escape', 'bglib/doc/html.py')],
  observe=['returned string'])

p('C24', 'Wiki formatting always succeeds and yields balanced, escaped HTML',
  "Formatting any wiki text (without the restructured-text, time-stamp and position-analysis macros) raises no error and yields HTML in which every element opened is closed in proper nesting order and nothing of the user's text can introduce markup: angle brackets, bare ampersands and attribute-breaking quotes of the source never appear unescaped in the output. Formatting is a function of the text alone.",
  ['inputs', 'histories'], 'every text of a bounded number of wiki tokens and lines, including arbitrary nesting and misuse of markup',
  'the repository itself fuzzes this because tests cannot cover it: any sequence of markup tokens is legal input.',
  ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/macro.py', 'bglib/doc/html.py'],
  [('LineFormatter handlers', 'bglib/doc/bgwiki.py'), ('Formatter.parse/make_html', 'bglib/doc/bgwiki.py'), ('BgWikiElementNode.open/close, HtmlWriter', 'bglib/doc/doctree.py')],
  observe=['make_html() output'])

p('C25', 'The document tree stays a tree and only allowed nestings are built',
  "After any sequence of entering elements, leaving elements and adding text, the document is a tree whose parent and child links agree, every element sits where its container accepts it, text keeps its order and none is lost, and adjacent text is merged. Leaving an element goes to the parent of the nearest enclosing one of that kind and does nothing when there is none; the written HTML visits every node once, opening before and closing after its content.",
  ['histories'], 'every sequence of a bounded number of enter, leave and text operations over the element kinds',
  'tests run a few fixed sequences; structure must survive any sequence of editing operations.',
  ['bglib/doc/doctree.py'],
  [('Editor.enter/leave/append/append_text', 'bglib/doc/doctree.py'), ('is_acceptable/acceptables', 'bglib/doc/doctree.py'), ('HtmlWriter', 'bglib/doc/doctree.py')],
  [('current/root', 'cursor and root of the tree', 'bglib/doc/doctree.py')],
  ['node.children, node.parent, HTML'])

p('C26', 'The drawn board tree shows exactly the board',
  "The element tree built for a board holds, for every point, bar and home, exactly one chequer stack with the right player and count where chequers are and none elsewhere, and the scores, match length and Crawford flag of the board. The cube appears exactly once, at its owner's home or in the centre holder or, while a double is offered, in the field of the player it is offered to at the doubled value; a resignation offered is shown on the side of the player to decide it; the dice shown are those rolled, in the roller's field, and the action line names the player who must act.",
  ['inputs'], 'every position, cube state, turn, dice, offer and score for which a picture is defined',
  'tests draw about thirty boards, and most of those need a missing imaging library; each branch depends on combinations of six fields.',
  ['bglib/image/base.py'],
  [('ElementTree.set', 'bglib/image/base.py'), ('ElementTree.create_tree', 'bglib/image/base.py')],
  observe=['ElementTree children'])

p('C27', 'Style rules apply exactly to the elements their selectors describe',
  "A style rule applies to an element exactly when its last selector matches that element and the earlier selectors match some of its ancestors in the same order. Each selector matches by element name and, when given, attribute value and text content. A rule line is read as exactly the selectors and settings written. Rules are applied in sheet order so that the later of two matching rules decides an attribute, and a rule never changes an element it does not match.",
  ['inputs'], 'every pattern of which selectors match which elements on a path, for bounded path and rule lengths; every attribute value',
  'tests apply three rules to one tree; descendant matching is over every path and selector list.',
  ['bglib/image/css.py', 'bglib/image/base.py'],
  [('Rule.is_match', 'bglib/image/css.py'), ('Selector.is_match', 'bglib/image/css.py'), ('Binder.apply', 'bglib/image/css.py')],
  observe=['which elements get the block'])

p('C28', 'Element attributes are typed, inherited only when declared, and child-checked',
  "Setting an element attribute stores exactly that value when it has the declared type and is refused with a type error otherwise, leaving the earlier value. Reading an attribute gives the element's own value, else, for inheritable attributes only, the nearest ancestor's, else the declared default, else an attribute error. Text from a style sheet is read as the declared type. A child is accepted exactly when the element's content model lists it, and an accepted child is linked to its parent.",
  ['inputs'], 'every chain of elements with any subset of attributes set, every value kind, every parent and child kind',
  'tests set a few attributes on a few elements; lookup order over arbitrary ancestor chains is not sampled.',
  ['bglib/image/base.py'],
  [('BaseElement.__setattr__/__getattr__/append/apply', 'bglib/image/base.py'), ('BaseAttribute subclasses', 'bglib/image/base.py')],
  observe=['attribute values and exceptions'])

p('C29', 'Drawing shows the right dots, cube number and chequer stack inside its box',
  "Drawing a die in dot style paints exactly as many dots as the die shows, symmetrically and inside the die; drawing the cube shows two to the power of its logged value; drawing a chequer stack paints as many chequers as it holds up to the display maximum and writes the count only beyond it. Scaling the board picks the largest magnification at which it fits the requested size.",
  ['inputs'], 'every die value, cube value, chequer count and bounding size',
  'image tests compare bitmaps for a few boards with a library that is absent.',
  ['bglib/image/base.py', 'bglib/image/draw.py'],
  [('Die.draw, Cube.draw, Chequer.draw', 'bglib/image/base.py'), ('Board.set_mag', 'bglib/image/base.py')],
  observe=['recorded drawing calls'])

p('C30', 'Handicapped prizes and fees equalise expectations exactly',
  "For any rating, average, number of rounds and match length, the chances used for a tournament are probabilities (a winner's and a runner-up's chance between 0 and 1, together at most 1), an average player's handicap leaves prizes and fee unchanged, a handicapped prize times the player's own chance of it equals the average player's expectation, and the handicapped fee is in proportion to the player's chance of winning. A stronger player never gets a larger winner's prize or a smaller fee than a weaker one.",
  ['inputs'], 'every real rating, average, fee and prize, bounded round counts, any match length',
  'tests evaluate a couple of rating values.',
  ['bglib/stat/tourney.py', 'bglib/stat/rating.py'],
  [('tourney_chance/prize_handicap/entryfee_handicap', 'bglib/stat/tourney.py')],
  observe=['return values'])

p('C31', 'Every shipped theme draws every board by its own rules, inside the picture',
  "Drawing any board with any of the style sheets shipped with the package, at any picture size, succeeds, and every element has exactly the settings the sheet's rules give it (the last matching rule of the sheet decides). Nothing is painted outside the requested picture, the 24 points never cover one another, every stack on a point or bar is painted in its own place, as many chequers as it holds up to the theme's maximum, all alike, with the count written beyond the maximum or not at all, and the two players' chequers always look different. The dice rolled are shown.",
  ['inputs'], 'every chequer stack, roll, cube, resignation and score of a board, every shipped sheet, several picture sizes',
  'theme tests compare bitmaps with a library that is absent; the others use one board.',
  ['bglib/image/draw.py', 'bglib/image/css.py', 'bglib/image/base.py', 'bglib/image/resource/*/default.css'],
  [('Draw.draw/make_tree/draw_element', 'bglib/image/draw.py'), ('load, CSSParser, Binder.apply', 'bglib/image/css.py'),
   ('ElementTree, Board.set_mag, the draw methods', 'bglib/image/base.py')],
  observe=['recorded drawing calls', 'element settings'])

p('C32', 'The bitmap backend paints pictures, text and shapes in the rectangle asked for',
  "Pictures are loaded from the file asked for, scaled to the size asked for, turned upside down when and only when asked, and painted in the rectangle asked for, transparent ones through their own mask; the cache never hands out another file, size or way up, and a missing file is an error each time. Text stands centred in its rectangle, in the largest font not higher than the rectangle in which it fits strictly inside, and is left out when it fits in none of at least eight points. Shapes cover the rectangle asked for with the fill asked for. Drawing a board hands back a new picture of exactly the size asked for, the same again for the same board, also after a drawing that failed.",
  ['inputs', 'histories'], 'every rectangle, every measure of every font size, every sequence of pictures and fonts asked for',
  'the imaging library the tests for this backend need is absent and they compare a few bitmaps.',
  ['bglib/image/PIL.py', 'bglib/image/draw.py'],
  [('Draw.create_dc/draw_text/calc_font_size/load_font/load_image/paste_image/draw_*', 'bglib/image/PIL.py'),
   ('Draw.draw', 'bglib/image/draw.py')],
  observe=['recorded calls of the imaging library'])

p('C33', 'The position and analysis macros show exactly what was asked for and stored',
  "A wiki page that embeds an analysis asks the data base for exactly the position named and shows every stored row once, in order: its number, action or move, depth, the equity with sign and three decimals, the difference when there is one, and each of the six figures under its own heading; the row of the play actually made is marked and no other. The cube tables say the cubeless and money equities. An embedded position becomes a picture of that very position, style, format and size, inside one element that ends where the macro ends, so that what follows on the page stands outside it; text that is no position, or no known macro, is reported where it stands, safely quoted.",
  ['inputs', 'configuration'], 'every position identity, every list of rows, every combination of options',
  'tests cover a few pages with a fixed data base; marking, order and the figures depend on every combination of row contents.',
  ['bglib/doc/macro.py', 'bglib/doc/doctree.py', 'bglib/doc/bgwiki.py'],
  [('Analysis/CubelessEquity/CubeAction_table_row/Movelisting_row/Position/dispatch', 'bglib/doc/macro.py'),
   ('Editor/HtmlWriter', 'bglib/doc/doctree.py')],
  observe=['HTML returned', 'data base asked'])

p('C34', 'Moves, dice and boards keep every part when added, copied or printed',
  "Adding a move to another is the same as appending its parts one by one and leaves the added one alone; adding a move that takes another back leaves nothing. A move factory plays a move as it would play its parts, and refuses alike; one handed a move and dice goes on from these and leaves the ones handed in alone. The text of a move names its parts in order, each with the points moved between and a star when and only when it hits, readable by the reader of the package. The dice left to play can be spent only while they are left, and their text, number, largest and doubles say what is left. A board copied is equal and independent, and its dump names every field with its value once.",
  ['inputs', 'histories'], 'every sequence of partial moves, every roll and every sequence of dice used, every board field',
  'tests sample a few moves; the merging of parts, the order and the counting depend on arbitrary sequences.',
  ['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/util.py'],
  [('Move/PartialMove/MoveFactory/AvailableToPlay', 'bglib/model/move.py'), ('board.__repr__/__copy__/__eq__', 'bglib/model/board.py')],
  observe=['return values', 'text'])

p('C35', "The XML written for a board is well formed and valid by the package's DTD",
  "The XML of every board, styled or not, is well formed, has a prologue and one root, and reads back to the very tree of elements, attributes and texts it was written from, whatever characters these hold; every element, child and attribute in it is declared in the DTD the package generates, and the DTD declares each element once, with the children it accepts and the attributes it has.",
  ['inputs'], 'every stack, roll, cube, score, offer and style; every word in an attribute or text',
  'tests compare the XML of the starting position; no test reads it back or validates it.',
  ['bglib/image/base.py'],
  [('ElementTree.xml/BaseElement.format/make_DTD_ELEMENT/make_DTD_ATTLIST/ElementFactory.make_dtd', 'bglib/image/base.py')],
  observe=['XML text', 'DTD text'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
