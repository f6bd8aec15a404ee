// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;
import "@repo/contracts/V1/AStateMachine.sol";

// A richer state machine than the repository's example: balances, joins, payouts, a digest that
// depends on every header field, and calls that fail in different ways.
struct LedgerState {
    uint turn;
    bytes32 digest;
    address[] participants;
    uint[] balances;
    bytes blob;
}

contract LedgerStateMachine is AStateMachine {
    LedgerState state;
    event Moved(address indexed from, address to, uint amount, uint turn);
    event Digest(bytes32 digest);

    error Unlucky(uint code);

    modifier onTurn() {
        require(_tx.header.participant == getNextToWrite(), "Ledger: not your turn");
        _;
        state.turn += 1;
        state.digest = keccak256(abi.encode(state.digest, _tx.header, _tx.body.data, state.turn));
        emit Digest(state.digest);
    }

    function _index(address a) internal view returns (uint) {
        for (uint i = 0; i < state.participants.length; i++) if (state.participants[i] == a) return i;
        revert("Ledger: unknown");
    }

    function transfer(address to, uint amount) public onTurn returns (uint) {
        uint f = _index(_tx.header.participant);
        uint t = _index(to);
        state.balances[f] -= amount; // panics on underflow
        state.balances[t] += amount;
        emit Moved(_tx.header.participant, to, amount, state.turn);
        return state.balances[f];
    }

    function write(bytes calldata b) public onTurn {
        state.blob = b;
    }

    // Only every third turn may be rotated by someone other than the round-robin writer
    function rotate(uint by) public onTurn {
        state.turn += by;
    }

    // Logs like those of other contracts a state machine may call: nothing the application's interface describes
    function foreign(uint how) public onTurn {
        bytes32 moved = keccak256("Moved(address,address,uint256,uint256)");
        bytes32 dig = keccak256("Digest(bytes32)");
        uint who = uint160(_tx.header.participant);
        assembly {
            mstore(0, how)
            switch mod(how, 7)
            case 0 { log0(0, 32) }
            case 1 { log1(0, 32, 0x1234) }
            case 2 { log1(0, 0, dig) } // too little data
            case 3 { log2(0, 0, dig, how) } // the same event with its argument indexed
            case 4 { log1(0, 32, moved) } // an argument not indexed
            case 5 { log4(0, 32, moved, who, who, how) }
            default { log0(0, 0) log1(0, 31, dig) log2(0, 32, 0x99, how) }
        }
    }

    function fail(uint how) public onTurn {
        state.blob = hex"dead";
        state.turn += 17;
        if (how == 0) revert("Ledger: as you wish");
        if (how == 1) revert Unlucky(how);
        if (how == 2) assert(false);
        if (how == 3) revert();
        if (how == 4) this.setState(abi.encode(state)); // re-entrancy guard
        if (how == 5) while (true) state.turn += 1; // out of gas
    }

    // A move that calls the state machine itself, and may live with the failure of that call
    function inner(bytes calldata data, bool must) public onTurn {
        (bool ok, ) = address(this).call(data);
        require(ok || !must, "Ledger: inner call failed");
        state.blob = ok ? bytes(hex"01") : bytes(hex"00");
    }

    // Anyone may do nothing at any time
    function idle(bytes calldata b) public {}

    function total() public view returns (uint s) {
        for (uint i = 0; i < state.balances.length; i++) s += state.balances[i];
    }
    function balanceOf(address a) public view returns (uint) {
        return state.balances[_index(a)];
    }
    function getTurn() public view returns (uint) {
        return state.turn;
    }
    function getBlob() public view returns (bytes memory) {
        return state.blob;
    }
    function _setState(bytes memory encodedState) internal virtual override {
        state = abi.decode(encodedState, (LedgerState));
    }
    function getState() public view virtual override returns (bytes memory) {
        return abi.encode(state);
    }
    function getParticipants() public view virtual override returns (address[] memory) {
        return state.participants;
    }
    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return address(0);
        return state.participants[state.turn % state.participants.length];
    }
    function _slashParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        // a slashed participant forfeits everything to the others
        uint n = state.participants.length;
        ProcessExit memory pe;
        for (uint i = 0; i < n; i++)
            if (state.participants[i] == adr) {
                uint b = state.balances[i];
                _drop(i);
                pe.participant = adr;
                pe.amount = 0;
                if (n > 1) state.balances[0] += b;
                else pe.amount = b;
                return (true, pe);
            }
        return (false, pe);
    }
    function _removeParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        ProcessExit memory pe;
        for (uint i = 0; i < state.participants.length; i++)
            if (state.participants[i] == adr) {
                pe.participant = adr;
                pe.amount = state.balances[i];
                _drop(i);
                return (true, pe);
            }
        return (false, pe);
    }
    function _drop(uint i) internal {
        uint n = state.participants.length;
        for (uint j = i; j + 1 < n; j++) {
            state.participants[j] = state.participants[j + 1];
            state.balances[j] = state.balances[j + 1];
        }
        state.participants.pop();
        state.balances.pop();
    }
    function _joinChannel(JoinChannel memory jc) internal virtual override returns (bool) {
        for (uint i = 0; i < state.participants.length; i++) if (state.participants[i] == jc.participant) return false;
        if (jc.amount == 13) return false; // a join the application refuses
        state.participants.push(jc.participant);
        state.balances.push(jc.amount);
        return true;
    }
}
