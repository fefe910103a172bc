// Stand-in for the runtime package "clibri", of which the generated code uses what is declared here.
export enum ELogLevel {
    verb,
    debug,
    info,
    warn,
    err,
}

export class Logger {
    public alias: string;
    constructor(alias: string) {
        this.alias = alias;
    }
    public clone(alias: string): Logger {
        return new Logger(`${this.alias}/${alias}`);
    }
    public verb(msg: string): string {
        return msg;
    }
    public debug(msg: string): string {
        return msg;
    }
    public info(msg: string): string {
        return msg;
    }
    public warn(msg: string): string {
        return msg;
    }
    public err(msg: string): string {
        return msg;
    }
}

export class DefaultLogger extends Logger {}

export class Subscription {
    private readonly _end: () => void;
    constructor(end: () => void) {
        this._end = end;
    }
    public destroy(): void {
        this._end();
    }
}

export class Subject<T> {
    private _handlers: Array<(value: T) => any> = [];
    public readonly name: string;
    constructor(name: string = "") {
        this.name = name;
    }
    public subscribe(handler: (value: T) => any): Subscription {
        this._handlers.push(handler);
        return new Subscription(() => {
            this._handlers = this._handlers.filter((h) => h !== handler);
        });
    }
    public emit(value: T): void {
        this._handlers.slice().forEach((h) => h(value));
    }
    public destroy(): void {
        this._handlers = [];
    }
    public count(): number {
        return this._handlers.length;
    }
}

const bag: any = {};

export function globals(): any {
    return bag;
}

let ids = 0;

export function guid(): string {
    ids += 1;
    return `guid-${ids}`;
}

export interface IClientSubjects {
    data: Subject<ArrayBufferLike>;
    connected: Subject<void>;
    disconnected: Subject<void>;
    error: Subject<Error>;
}

export abstract class Client {
    public abstract getEvents(): IClientSubjects;
    public abstract send(buffer: ArrayBufferLike): Error | undefined;
    public abstract destroy(): Promise<void>;
}

export interface IServerError {
    message: string;
}

export interface IServerReceivedEvent {
    uuid: string;
    buffer: ArrayBufferLike;
}

export interface IServerSubjects {
    ready: Subject<void>;
    connected: Subject<string>;
    disconnected: Subject<string>;
    error: Subject<IServerError>;
    shutdown: Subject<void>;
    received: Subject<IServerReceivedEvent>;
}

export abstract class Server {
    public abstract getEvents(): IServerSubjects;
    public abstract listen(): Promise<void>;
    public abstract send(buffer: ArrayBufferLike, uuid: string): Promise<void>;
    public abstract disconnect(uuid: string): Promise<void>;
    public abstract shutdown(): Promise<void>;
}

export enum ConsumerErrorHandelingStrategy {
    Ignore = "Ignore",
    Log = "Log",
    EmitError = "EmitError",
    Disconnect = "Disconnect",
    EmitErrorAndDisconnect = "EmitErrorAndDisconnect",
}

export enum ProducerIdentificationStrategy {
    Ignore = "Ignore",
    Log = "Log",
    EmitError = "EmitError",
    Disconnect = "Disconnect",
    EmitErrorAndDisconnect = "EmitErrorAndDisconnect",
}

export class Options {
    public readonly logger: Logger;
    public readonly consumerErrorHandelingStrategy: ConsumerErrorHandelingStrategy;
    public readonly producerIndentificationStrategy: ProducerIdentificationStrategy;
    constructor(o: {
        logger?: Logger;
        consumerErrorHandelingStrategy?: ConsumerErrorHandelingStrategy;
        producerIndentificationStrategy?: ProducerIdentificationStrategy;
    }) {
        this.logger = o.logger === undefined ? new DefaultLogger("") : o.logger;
        this.consumerErrorHandelingStrategy =
            o.consumerErrorHandelingStrategy === undefined ? ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect : o.consumerErrorHandelingStrategy;
        this.producerIndentificationStrategy =
            o.producerIndentificationStrategy === undefined ? ProducerIdentificationStrategy.Ignore : o.producerIndentificationStrategy;
    }
}
