""" C20: Connect-Four against a reference implementation, with clients that play, cheat, snapshot, restore and crash on several boards. """
import contextlib
import copy
import io
import pickle

import numpy as onp
from coax.envs import ConnectFourEnv

R, C = 6, 7


class Game:
    """ the rules, from scratch """
    def __init__(self):
        self.board = [[0] * C for _ in range(R)]   # board[row][col], row 0 on top
        self.last = None                           # who moved last (None: nobody yet)
        self.first = None
        self.done = False
        self.moves = 0

    def copy(self):
        return copy.deepcopy(self)

    def height(self, a):
        return sum(1 for i in range(R) if self.board[i][a])

    def legal(self):
        return [a for a in range(C) if self.height(a) < R]

    def wins(self, a, who):
        """ would a token of this player in this column make four in a row? """
        i = R - 1 - self.height(a)
        for di, dj in ((0, 1), (1, 0), (1, 1), (1, -1)):
            n = 1
            for sgn in (1, -1):
                k = 1
                while True:
                    x, y = i + sgn * k * di, a + sgn * k * dj
                    if not (0 <= x < R and 0 <= y < C) or self.board[x][y] != who:
                        break
                    n += 1
                    k += 1
            if n >= 4:
                return True
        return False

    def turn(self):
        return 'A' if self.last != 'A' else 'B'

    def step(self, a):
        who = self.turn()
        won = self.wins(a, who)
        self.board[R - 1 - self.height(a)][a] = who
        self.last = who
        self.moves += 1
        self.done = won or self.moves == R * C
        return (1.0 if won else 0.0), self.done

    def obs(self):
        """ (tokens of the player who moved last, tokens of the other one) """
        me = onp.array([[int(x != 0 and x == self.last) for x in row] for row in self.board])
        ot = onp.array([[int(x != 0 and x != self.last) for x in row] for row in self.board])
        return me, ot

    def key(self):
        return ''.join(str(x) for row in self.board for x in row) + str(self.last) + str(self.done)


class Seat:
    def __init__(self, name):
        self.name = name
        self.env = ConnectFourEnv()
        self.game = Game()
        self.begun = False


def rendering(env):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        env.render()
    return buf.getvalue()


def verify_obs(d, s, game, what):
    with d.guard('observation', what):
        s = onp.asarray(s)
        d.check(s.shape == (R + 1, C, 2), 'observation', lambda: f"{what}: shape {s.shape}")
        me, ot = game.obs()
        d.check(onp.array_equal(s[1:, :, 0], me), 'observation', lambda: f"{what}: tokens of the player to whom the observation belongs:\n{s[1:, :, 0]}\nexpected\n{me}")
        d.check(onp.array_equal(s[1:, :, 1], ot), 'observation', lambda: f"{what}: tokens of the other player:\n{s[1:, :, 1]}\nexpected\n{ot}")
        mask = onp.array([int(a in game.legal()) for a in range(C)])
        for k in (0, 1):
            d.check(onp.array_equal(s[0, :, k], mask), 'observation', lambda: f"{what}: available moves {s[0, :, k]}, expected {mask}")
        d.check(ConnectFourEnv.observation_space.contains(s.astype('int64')), 'observation', f"{what}: not a member of the observation space")


def verify(d, seat, what):
    env, game = seat.env, seat.game
    with d.calling('exception', what):
        s, av, mask, done, sid = env.state, env.available_actions, env.available_actions_mask, env.done, env.state_id
    verify_obs(d, s, game, what)
    with d.guard('available', what):
        d.check([int(a) for a in av] == game.legal(), 'available', lambda: f"{what}: available_actions {av}, expected {game.legal()}")
        d.check([bool(x) for x in mask] == [a in game.legal() for a in range(C)], 'available', lambda: f"{what}: mask {mask}")
        d.check(bool(done) == game.done, 'done', lambda: f"{what}: done is {done}, expected {game.done}")
        d.check(isinstance(sid, str), 'state-id', lambda: f"{what}: state_id {sid!r}")
    return s, sid


def verify_rendering(d, seat, what):
    with d.calling('exception', f"{what}: render"):
        text = rendering(seat.env)
    with d.guard('rendering', what):
        rows = [ln.split('|')[1:-1] for ln in text.splitlines() if ln.count('|') == C + 1]
        d.check(len(rows) == R, 'rendering', lambda: f"{what}: {len(rows)} rows")
        symbols = {}
        for i in range(R):
            for j in range(C):
                cell = rows[i][j].strip()
                who = seat.game.board[i][j]
                d.check(bool(cell) == bool(who), 'rendering', lambda: f"{what}: cell {i},{j} shows {cell!r}, expected {who!r}")
                if who:
                    d.check(symbols.setdefault(who, cell) == cell, 'rendering', lambda: f"{what}: one player, different symbols")
        d.check(len(set(symbols.values())) == len(symbols), 'rendering', f"{what}: two players, one symbol")
    return text


def choose_move(d, game, style):
    legal = game.legal()
    if style == 'avoid':     # long games: nobody wins if it can be helped
        calm = [a for a in legal if not game.wins(a, game.turn())]
        return d.pick(calm or legal)
    if style == 'narrow':
        few = [a for a in legal if a in (2, 3, 4, 5)] or legal
        return d.pick(few)
    if style == 'sharp':     # take a win if there is one
        win = [a for a in legal if game.wins(a, game.turn())]
        return d.pick(win) if win and d.chance(0.5) else d.pick(legal)
    return d.pick(legal)


def run(d):
    seats = [Seat(k) for k in range(d.int(1, 3))]
    saved = []      # (state_id, game, rendering)
    held = []       # (array held by a client, copy of it)
    style = d.pick(('any', 'avoid', 'avoid', 'narrow', 'sharp'))
    ops = [('move', 60), ('illegal', 4), ('reset', 2), ('save', 6), ('restore', 4), ('query', 3), ('render', 2), ('scribble', 2), ('copy', 2), ('crash', 1), ('badid', 1)]
    if d.chance(0.4):   # long undisturbed games
        style = 'avoid'
        seats = seats[:1]
        ops = [('move', 60), ('illegal', 2), ('save', 2), ('query', 1), ('restore', 0)]
    restores = ends = 0
    for step in d.steps(10, 160):
        seat = seats[d.choose(len(seats))]
        env, game = seat.env, seat.game
        what = d.weighted(ops)
        if what == 'move' and game.done:
            what = d.pick(('illegal', 'reset', 'restore', 'save', 'render'))
        d.sched(seat.name, what)
        name = f"{what} on board {seat.name} after {game.moves} moves"
        if what == 'move':
            a = choose_move(d, game, style)
            arg = d.pick((int, onp.int64, onp.int32))(a)
            if d.chance(0.05):
                arg = env.available_actions[game.legal().index(a)]
            r, done = game.step(a)
            with d.calling('exception', name):
                out = env.step(arg)
            with d.guard('step', name):
                s, rew, dn, info = out
                d.event('move', seat.name, a, rew, bool(dn))
                d.check(bool(dn) == done, 'done', lambda: f"{name}: done is {dn}, expected {done}; {board(game)}")
                d.check(float(rew) == r, 'reward', lambda: f"{name}: reward {rew}, expected {r}; {board(game)}")
                verify_obs(d, s, game, name)
                held.append((s, onp.array(s)))
                if done:
                    ends += 1
                    d.probe('draw' if r == 0 else 'win')
                    if r == 1 and game.moves == R * C:
                        d.probe('win_on_full_board')
                if d.chance(0.2):
                    saved.append((info['state_id'], game.copy(), None))
        elif what == 'illegal':
            full = [a for a in range(C) if a not in game.legal()]
            options = ['high', 'low', 'type', 'none'] + (['full'] * 4 if full else []) + (['over'] * 4 if game.done else [])
            how = d.pick(options)
            a = {'high': 7, 'low': -1, 'type': 'x', 'none': None, 'full': d.pick(full) if full else 0, 'over': d.pick(game.legal() or [0])}[how]
            d.fault('illegal_move', how)
            try:
                env.step(a)
            except Exception as e:
                d.event('rejected', how, type(e).__name__)
            else:
                d.violate('illegal-accepted', f"{name}: move {a!r} ({how}) was accepted; {board(game)}")
            verify(d, seat, name)
        elif what == 'badid':
            good = saved[d.choose(len(saved))][0] if saved else ConnectFourEnv().state_id
            bad = d.pick((good[:3] + 'zz' + good[5:], '3' + good[1:], good[0] + '2' + good[2:], good[:2] + '8' + good[3:], good + 'ffff', good[:3] + 'f' * 17, ''))
            d.fault('malformed_state_id')
            try:
                env.set_state(bad)
            except Exception as e:
                d.event('rejected', bad, type(e).__name__)
            else:
                # what counts as a valid id is not specified; start over
                seat.env.reset()
                seat.game = Game()
            verify(d, seat, name)
            verify_rendering(d, seat, name)
        elif what == 'reset':
            with d.calling('exception', name):
                s = env.reset()
            seat.game = Game()
            verify_obs(d, s, seat.game, name)
            held.append((s, onp.array(s)))
        elif what == 'save':
            s, sid = verify(d, seat, name)
            saved.append((sid, game.copy(), verify_rendering(d, seat, name) if d.chance(0.5) else None))
        elif what == 'restore':
            if not saved:
                continue
            sid, g, text = saved[d.choose(len(saved))]
            if d.chance(0.3):
                seat.env = ConnectFourEnv()
            with d.calling('exception', name):
                seat.env.set_state(sid)
            seat.game = g.copy()
            restores += 1
            d.event('restore', seat.name, g.key())
            s, sid2 = verify(d, seat, f"{name}: state with {g.moves} moves restored")
            if text is not None:
                now = verify_rendering(d, seat, name)
                d.check(now == text, 'rendering', lambda: f"{name}: rendering differs after restoring\n{now}\n{text}")
        elif what == 'crash':
            # the process dies; only the state ids survive
            d.fault('crash')
            seat.env = ConnectFourEnv()
            seat.game = Game()
            if saved:
                sid, g, _ = saved[-1]
                with d.calling('exception', name):
                    seat.env.set_state(str(sid))
                seat.game = g.copy()
                restores += 1
            verify(d, seat, name)
        elif what == 'copy':
            with d.calling('exception', name):
                seat.env = pickle.loads(pickle.dumps(env)) if d.chance(0.5) else copy.deepcopy(env)
            d.fault('process_migration')
            if d.chance(0.5):   # the abandoned original keeps playing
                for a in list(game.legal())[:2]:
                    if not env.done:
                        env.step(a)
            verify(d, seat, name)
        elif what == 'query':
            verify(d, seat, name)
        elif what == 'render':
            verify_rendering(d, seat, name)
            verify(d, seat, name)
        elif what == 'scribble':
            # a client writes into arrays it was given
            d.fault('client_scribbles')
            s, av, mask = env.state, env.available_actions, env.available_actions_mask
            for arr in (s, av, mask):
                if isinstance(arr, onp.ndarray) and arr.flags.writeable:
                    arr[...] = 1 - arr if arr.dtype != bool else ~arr
            verify(d, seat, name)
        for arr, orig in held[-4:]:
            d.check(onp.array_equal(arr, orig), 'held-observation', lambda: f"{name}: an observation returned earlier has changed")
        d.state(seat.game.key())
    for seat in seats:
        verify(d, seat, 'final')
    d.is_nontrivial = d.sched_len >= 12 and (restores > 0 or ends > 0)


def board(game):
    return '/'.join(''.join(str(x or '.') for x in row) for row in game.board)
