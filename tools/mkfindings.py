#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the recorded findings and the repairs made."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(id='C26-your-double', property='C26', fn='c_image.c26_state', params={'action': 0},
         values={'case': 1, 'doubled': 0, 'rolled': 0, 'owner': 0, 'log': 0, 's0': 0, 's1': 0, 'length': 0, 'crawford': 0,
                 'game': 0},
         text="a double offered by YOU (on action YOU, HIM to decide): the action element's player is 'you' though HIM "
              "must act (a double offered by HIM has it right); not repaired because the recorded reference pictures "
              "in bglib/image/resource/*/test/a.xml have it so"),
]
FIXED = [
    ('C03', '9a18dc5', 'a chequer on the ace point was not borne off with a larger die (find_src_of_bearoff_with range)'),
    ('C03', 'a2ec77a', 'asking for a move to a point more than the die below the bar raised IndexError'),
    ('C03', 'd09104e', "asking for a bear-off move sorted the caller's dice list in place"),
    ('C04', 'e288940', 'asking which played moves to take back rewound the position'),
    ('C05', '81ee9c6', 'a move refused for want of a die was kept in the move list'),
    ('C05', '8e89b8a', 'consuming a missing die raised a string (TypeError) instead of ValueError'),
    ('C04', '01fba4e', 'guess_your_making_point tested the second chequer on the board before the first move'),
    ('C06', '580c478', 'dice could be picked up although a chequer on the bar could enter'),
    ('C06', '511b7e2', 'asking whether the dice may be picked up rewound the position'),
    ('C08', 'a53949f', 'HIM could double a dead cube when exactly enough was at stake, YOU could not (also C07)'),
    ('C09', 'ca57c9f', 'hash(board) raised TypeError'),
    ('C11', '33fd590', 'a position with few chequers was encoded in fewer than ten bytes, hence fewer than 14 characters'),
    ('C13', '115ec01', 'decoding a position ID of impossible length never ended'),
    ('C13', 'a3b825c', 'a bad score in an XGID ended in an unrelated error'),
    ('C16', '0b3f7cb', "decoding a FIBS board with the opponent on turn raised NameError"),
    ('C16', '7fbdb38', 'a double from an earlier decode into the same board survived'),
    ('C16', 'a15c57f', 'decoding a FIBS board with nobody on turn raised NameError'),
    ('C17', 'f257344', 'indexes of positions with fifteen chequers could not be turned back into positions'),
    ('C17', 'b480daf', 'bearoff_param failed with IndexError for a side with no chequers left'),
    ('C28', 'b91239f', 'an inherited attribute with a default raised AttributeError inside an element that does not declare it'),
    ('C28', '4b2c7ed', 'the text False in a style sheet was the boolean True (also C27)'),
    ('C29', 'b3464f1', 'drawing at a size whose scale rounds up failed on an assertion (341 wide board at 389 pixels)'),
    ('C26', '99ac06c', 'a resignation offered after rolling or after a taken double was not pictured'),
    ('C21', 'd2d2957', 'a subscriber was skipped when the handler before it unregistered its subscriber'),
    ('C25', '6b89103', 'parent links of appended nodes disagreed with the tree, leaving went to the wrong place'),
    ('C24', 'a5b4bb0', 'a double quote in an attribute value ended the attribute'),
    ('C24', '5135829', 'a macro without arguments raised TypeError'),
    ('C24', 'b7668b5', 'the text of an automatic anchor was not escaped'),
    ('C24', '16bf7c0', 'a list item without sign in a list of signed ones raised KeyError'),
    ('C24', '78fd684', 'a table of contents of headings with inline elements could not be rendered'),
    ('C22', '120f4e3', 'an empty line let a record without match length, or with an incomplete game, pass'),
    ('C33', '23e45fa', 'text after [[Position(..)]] stood inside the span of the position (leaving the span left the picture only)'),
    ('C35', 'bf98cfd', 'words with <, & or quotes in an attribute or text of a board element made its XML malformed'),
    ('C34', '503ba01', 'a move factory handed a move and no dice left took the whole roll again'),
]
json.dump(dict(findings=FINDINGS,
               fixed=['fixed: property=%s %s %s' % x for x in FIXED]),
          open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
